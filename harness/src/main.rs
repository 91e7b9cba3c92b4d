//! Executes calls on the code under test and reports what it observes, one JSON document per line.
//! It judges nothing: the observations are validated by the TLA+ specification.
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use atsc::optimizer::OptimizerPlan;
use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use vsri::Vsri;
use wavbrro::wavbrro::WavBrro;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = Vec::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize]);
        s.push(D[(x & 15) as usize]);
    }
    String::from_utf8(s).unwrap()
}
/// A series is written as 16 hexadecimal digits per sample (most significant first)
fn series(v: &Value) -> Vec<f64> {
    let s = v.as_str().unwrap();
    (0..s.len() / 16)
        .map(|i| f64::from_bits(u64::from_str_radix(&s[16 * i..16 * i + 16], 16).unwrap()))
        .collect()
}
fn unseries(d: &[f64]) -> String {
    let mut s = String::with_capacity(16 * d.len());
    for x in d {
        s.push_str(&format!("{:016x}", x.to_bits()));
    }
    s
}
fn codec(v: &Value) -> Compressor {
    match v.as_str().unwrap() {
        "noop" => Compressor::Noop,
        "fft" => Compressor::FFT,
        "idw" => Compressor::Idw,
        "constant" => Compressor::Constant,
        "polynomial" => Compressor::Polynomial,
        "auto" => Compressor::Auto,
        "rle" => Compressor::RLE,
        o => panic!("codec {o}"),
    }
}
/// Runs a call of the code under test; a panic is an observation
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}
fn put_series(m: &mut Map<String, Value>, k: &str, r: Result<Vec<f64>, String>) {
    match r {
        Ok(d) => m.insert(k.into(), json!(unseries(&d))),
        Err(e) => m.insert(format!("{k}_panic"), json!(e)),
    };
}
fn put_bytes(m: &mut Map<String, Value>, k: &str, r: Result<Vec<u8>, String>) {
    match r {
        Ok(d) => m.insert(k.into(), json!(hex(&d))),
        Err(e) => m.insert(format!("{k}_panic"), json!(e)),
    };
}

fn bound(v: &Value) -> f32 {
    // a percentage, exactly as the commands turn it into a fraction
    match v {
        Value::Number(n) if n.is_u64() => n.as_u64().unwrap() as u8 as f32 / 100.0,
        Value::Number(n) => n.as_f64().unwrap() as f32,
        _ => panic!("bound"),
    }
}

fn add_chunk(cs: &mut CompressedStream, c: &Value) {
    let d = series(&c["data"]);
    match c["how"].as_str().unwrap() {
        "default" => cs.compress_chunk(&d),
        "plain" => cs.compress_chunk_with(&d, codec(&c["c"])),
        _ => cs.compress_chunk_bounded_with(
            &d,
            codec(&c["c"]),
            bound(&c["e"]),
            c["level"].as_u64().unwrap_or(0) as usize,
        ),
    }
}

fn op_codec(c: &Value, m: &mut Map<String, Value>) {
    let d = series(&c["data"]);
    let k = codec(&c["c"]);
    let b = match c["how"].as_str().unwrap() {
        "plain" => guard(|| k.compress(&d)),
        "bounded" => guard(|| k.compress_bounded(&d, bound(&c["e"]) as f64)),
        _ => guard(|| {
            let r = k.get_compress_bounded_results(&d, bound(&c["e"]) as f64);
            m.insert("err".into(), json!(format!("{:016x}", r.error.to_bits())));
            r.compressed_data
        }),
    };
    if let Ok(bytes) = &b {
        put_series(m, "out", guard(|| k.decompress(d.len(), bytes)));
    }
    put_bytes(m, "bytes", b);
}

fn op_stream(c: &Value, m: &mut Map<String, Value>) {
    let mut cs = CompressedStream::new();
    let mut counts = vec![];
    for ch in c["chunks"].as_array().unwrap() {
        if let Err(e) = guard(|| add_chunk(&mut cs, ch)) {
            m.insert("add_panic".into(), json!(e));
            return;
        }
        counts.push(json!(cs.header.get_frame_count()));
    }
    m.insert("counts".into(), json!(counts));
    if c["parts"].as_bool().unwrap_or(false) {
        // each chunk alone
        let parts: Vec<Value> = c["chunks"]
            .as_array()
            .unwrap()
            .iter()
            .map(|ch| {
                let r = guard(|| {
                    let mut one = CompressedStream::new();
                    add_chunk(&mut one, ch);
                    one.decompress()
                });
                match r {
                    Ok(d) => json!(unseries(&d)),
                    Err(e) => json!({ "panic": e }),
                }
            })
            .collect();
        m.insert("parts".into(), json!(parts));
    }
    put_series(m, "mem", guard(|| cs.decompress()));
    put_series(m, "mem2", guard(|| cs.decompress()));
    let b = guard(|| cs.clone().to_bytes());
    if let Ok(bytes) = &b {
        match guard(|| CompressedStream::from_bytes(bytes)) {
            Ok(mut l) => {
                m.insert("count".into(), json!(l.header.get_frame_count()));
                m.insert("version".into(), json!(l.header.version));
                put_series(m, "out", guard(|| l.decompress()));
                put_series(m, "out2", guard(|| l.decompress()));
                put_bytes(m, "again", guard(|| l.clone().to_bytes()));
            }
            Err(e) => {
                m.insert("out_panic".into(), json!(e));
            }
        }
    }
    put_bytes(m, "bytes", b);
}

/// A series through planning, compression, bytes and decompression, as the command does it
fn op_pipe(c: &Value, m: &mut Map<String, Value>) {
    let d = series(&c["data"]);
    let r = guard(|| {
        let mut op = OptimizerPlan::plan(&d);
        op.set_compressor(codec(&c["mode"]));
        let mut cs = CompressedStream::new();
        for (k, part) in op.get_execution() {
            if c["how"] == "plain" {
                cs.compress_chunk_with(part, *k);
            } else {
                cs.compress_chunk_bounded_with(
                    part,
                    *k,
                    bound(&c["e"]),
                    c["level"].as_u64().unwrap_or(0) as usize,
                );
            }
        }
        cs.to_bytes()
    });
    if let Ok(b) = &r {
        put_series(m, "out", guard(|| CompressedStream::from_bytes(b).decompress()));
    }
    put_bytes(m, "bytes", r);
}

/// Requests running at the same time: each thread repeats its own until the time is up.
/// The answers of each request, each one once
fn op_threads(c: &Value, m: &mut Map<String, Value>) {
    let threads = c["threads"].as_array().unwrap();
    let start = std::sync::Barrier::new(threads.len());
    let ms = std::time::Duration::from_millis(c["ms"].as_u64().unwrap());
    let answers: Vec<Value> = std::thread::scope(|s| {
        let hs: Vec<_> = threads
            .iter()
            .map(|t| {
                let start = &start;
                s.spawn(move || {
                    let reqs = t.as_array().unwrap();
                    let mut seen: Vec<Vec<Map<String, Value>>> = vec![vec![]; reqs.len()];
                    let bytes: Vec<Option<Vec<u8>>> =
                        reqs.iter().map(|r| r["bytes"].as_str().map(unhex)).collect();
                    let mut raw: Vec<Vec<Result<Vec<u64>, String>>> = vec![vec![]; reqs.len()];
                    start.wait();
                    let t0 = std::time::Instant::now();
                    while t0.elapsed() < ms {
                        for (q, r) in reqs.iter().enumerate() {
                            let mut a = Map::new();
                            if let Some(b) = &bytes[q] {
                                let x = guard(|| CompressedStream::from_bytes(b).decompress())
                                    .map(|d| d.iter().map(|v| v.to_bits()).collect::<Vec<_>>());
                                if raw[q].contains(&x) {
                                    continue;
                                }
                                raw[q].push(x.clone());
                                put_series(&mut a, "out", x.map(|d| d.into_iter().map(f64::from_bits).collect()));
                            } else {
                                op_pipe(r, &mut a);
                            }
                            if !seen[q].contains(&a) {
                                seen[q].push(a);
                            }
                        }
                    }
                    json!(seen)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    m.insert("answers".into(), json!(answers));
}

fn op_load(c: &Value, m: &mut Map<String, Value>) {
    let b = unhex(c["bytes"].as_str().unwrap());
    match guard(|| CompressedStream::from_bytes(&b)) {
        Ok(mut l) => {
            m.insert("count".into(), json!(l.header.get_frame_count()));
            m.insert("version".into(), json!(l.header.version));
            put_series(m, "out", guard(|| l.decompress()));
        }
        Err(e) => {
            m.insert("load_panic".into(), json!(e));
        }
    }
}

/// Loads every strict prefix of a stream (or those listed)
fn op_cuts(c: &Value, m: &mut Map<String, Value>) {
    let b = unhex(c["bytes"].as_str().unwrap());
    let cuts: Vec<usize> = match c["cuts"].as_array() {
        Some(a) => a.iter().map(|x| x.as_u64().unwrap() as usize).collect(),
        None => (0..=b.len()).collect(),
    };
    let res: Vec<Value> = cuts
        .iter()
        .map(|&k| {
            match guard(|| CompressedStream::from_bytes(&b[..k]).decompress()) {
                Ok(d) => json!([k, true, d.len()]),
                Err(_) => json!([k, false, 0]),
            }
        })
        .collect();
    m.insert("cuts".into(), json!(res));
}

fn op_dec(c: &Value, m: &mut Map<String, Value>) {
    let b = unhex(c["bytes"].as_str().unwrap());
    let n = c["n"].as_u64().unwrap() as usize;
    let k = codec(&c["c"]);
    put_series(m, "out", guard(|| k.decompress(n, &b)));
}

fn op_plan(c: &Value, m: &mut Map<String, Value>) {
    let d = series(&c["data"]);
    match guard(|| OptimizerPlan::plan(&d)) {
        Ok(mut p) => {
            m.insert("sizes".into(), json!(p.chunk_sizes));
            m.insert("data".into(), json!(unseries(&p.data)));
            p.set_compressor(Compressor::RLE);
            match guard(|| {
                p.get_execution()
                    .iter()
                    .map(|(c, s)| json!([format!("{c:?}"), unseries(s)]))
                    .collect::<Vec<_>>()
            }) {
                Ok(e) => m.insert("exec".into(), json!(e)),
                Err(e) => m.insert("exec_panic".into(), json!(e)),
            };
        }
        Err(e) => {
            m.insert("plan_panic".into(), json!(e));
        }
    }
}

/// Frame sizes for long series given by length: positions of the non-finite samples are listed
fn op_planlen(c: &Value, m: &mut Map<String, Value>) {
    let mut out = vec![];
    for l in c["lens"].as_array().unwrap() {
        let n = l.as_u64().unwrap() as usize;
        let d: Vec<f64> = (0..n).map(|i| i as f64).collect();
        match guard(|| {
            let p = OptimizerPlan::plan(&d);
            let mut ok = p.data == d;
            let mut at = 0usize;
            for (_, s) in p.get_execution() {
                ok = ok && s == &d[at..(at + s.len()).min(n)];
                at += s.len();
            }
            (p.chunk_sizes.clone(), ok && at == n, p.get_execution().len())
        }) {
            Ok((s, ok, ne)) => out.push(json!({"n": n, "sizes": s, "inorder": ok, "execs": ne})),
            Err(e) => out.push(json!({"n": n, "panic": e})),
        }
    }
    m.insert("plans".into(), json!(out));
}

fn opt(r: Result<Option<i32>, String>) -> Value {
    match r {
        Ok(Some(x)) => json!(x),
        Ok(None) => json!(-1000000),
        Err(_) => json!(-2000000),
    }
}

fn vsri_query(v: &Vsri, q: &Value, m: &mut Map<String, Value>) {
    let lo = q["lo"].as_i64().unwrap() as i32;
    let hi = q["hi"].as_i64().unwrap() as i32;
    let ts: Vec<i32> = match q["ts"].as_array() {
        Some(a) => a.iter().map(|x| x.as_i64().unwrap() as i32).collect(),
        None => (lo..=hi).collect(),
    };
    let xs: Vec<i32> = match q["xs"].as_array() {
        Some(a) => a.iter().map(|x| x.as_i64().unwrap() as i32).collect(),
        None => vec![],
    };
    m.insert("ts".into(), json!(ts));
    m.insert(
        "sample".into(),
        json!(ts.iter().map(|&y| opt(guard(|| v.get_sample(y)))).collect::<Vec<_>>()),
    );
    m.insert(
        "next".into(),
        json!(ts.iter().map(|&y| opt(guard(|| v.get_this_or_next(y)))).collect::<Vec<_>>()),
    );
    m.insert(
        "prev".into(),
        json!(ts.iter().map(|&y| opt(guard(|| v.get_this_or_previous(y)))).collect::<Vec<_>>()),
    );
    m.insert("xs".into(), json!(xs));
    m.insert(
        "time".into(),
        json!(xs.iter().map(|&x| opt(guard(|| v.get_time(x)))).collect::<Vec<_>>()),
    );
    let e = match q["ranges"].as_array() {
        Some(a) => a
            .iter()
            .map(|r| (r[0].as_i64().unwrap() as i32, r[1].as_i64().unwrap() as i32))
            .collect::<Vec<_>>(),
        None => ts
            .iter()
            .flat_map(|&a| ts.iter().filter(move |&&b| b >= a).map(move |&b| (a, b)))
            .collect(),
    };
    m.insert(
        "empty".into(),
        json!(e
            .iter()
            .map(|&(a, b)| json!([a, b, match guard(|| v.is_empty([a, b])) { Ok(true) => 1, Ok(false) => 0, Err(_) => 2 }]))
            .collect::<Vec<_>>()),
    );
    m.insert("min".into(), json!(v.min()));
    m.insert("max".into(), json!(v.max()));
    m.insert(
        "count".into(),
        match guard(|| v.get_sample_count()) { Ok(x) => json!(x), Err(_) => json!(-2000000) },
    );
    m.insert(
        "all".into(),
        match guard(|| v.get_all_timestamps()) { Ok(x) => json!(x), Err(_) => json!([-2000000]) },
    );
}

fn op_vsri(c: &Value, m: &mut Map<String, Value>) {
    let dir = c["dir"].as_str().unwrap_or("/nonexistent");
    let file = format!("{dir}/index.vsri");
    let name = format!("{dir}/index");
    let mut v = Vsri::new(&name);
    let mut obs = vec![];
    for o in c["ops"].as_array().unwrap() {
        let mut r = Map::new();
        match o["op"].as_str().unwrap() {
            "append" => {
                let y = o["t"].as_i64().unwrap() as i32;
                r.insert(
                    "r".into(),
                    match guard(|| v.update_for_point(y).is_ok()) {
                        Ok(true) => json!("ok"),
                        Ok(false) => json!("err"),
                        Err(_) => json!("panic"),
                    },
                );
            }
            "appends" => {
                let res: Vec<i32> = o["ts"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|t| {
                        let y = t.as_i64().unwrap() as i32;
                        match guard(|| v.update_for_point(y).is_ok()) {
                            Ok(true) => 1,
                            Ok(false) => 0,
                            Err(_) => 2,
                        }
                    })
                    .collect();
                r.insert("rs".into(), json!(res));
            }
            "save" => {
                let res = guard(|| {
                    if o["via"] == "flush" {
                        v.flush().is_ok()
                    } else {
                        v.flush_to(Path::new(&file)).is_ok()
                    }
                });
                r.insert("r".into(), json!(matches!(res, Ok(true))));
                let text = std::fs::read_to_string(&file).unwrap_or_default();
                r.insert("text".into(), json!(text));
            }
            "new" => v = Vsri::new(&name),
            "put" => {
                let b: Vec<u8> = o["text"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                std::fs::write(&file, b).unwrap();
            }
            "load" => match guard(|| Vsri::load(&file)) {
                Ok(Ok(n)) => {
                    v = n;
                    r.insert("r".into(), json!(true));
                }
                _ => {
                    r.insert("r".into(), json!(false));
                }
            },
            "query" => vsri_query(&v, o, &mut r),
            "where" => {
                let lo = o["lo"].as_i64().unwrap() as i32;
                let hi = o["hi"].as_i64().unwrap() as i32;
                let ts: Vec<i32> = match o["ts"].as_array() {
                    Some(a) => a.iter().map(|x| x.as_i64().unwrap() as i32).collect(),
                    None => (lo..=hi).collect(),
                };
                r.insert("ts".into(), json!(ts));
                r.insert(
                    "where".into(),
                    json!(ts
                        .iter()
                        .map(|&y| opt(guard(|| Vsri::get_sample_location(&file, y))))
                        .collect::<Vec<_>>()),
                );
            }
            x => panic!("vsri op {x}"),
        }
        obs.push(Value::Object(r));
    }
    let _ = std::fs::remove_file(&file);
    m.insert("obs".into(), json!(obs));
}

/// The samples an abstract series of the model stands for
fn gen(o: &Value) -> Vec<f64> {
    if o.get("data").is_some() {
        series(&o["data"])
    } else {
        let from = o["from"].as_u64().unwrap();
        let n = o["n"].as_u64().unwrap();
        (from..from + n).map(|i| i as f64 * 1.5 + 0.25).collect()
    }
}

fn op_wbro(c: &Value, m: &mut Map<String, Value>) {
    let file = format!("{}/x.wbro", c["dir"].as_str().unwrap());
    let path = Path::new(&file);
    let full = c["full"].as_bool().unwrap_or(false);
    let mut w = WavBrro::new();
    let mut all: Vec<f64> = vec![];
    let mut obs = vec![];
    for o in c["ops"].as_array().unwrap() {
        let mut r = Map::new();
        match o["op"].as_str().unwrap() {
            "append" => {
                let d = gen(o);
                r.insert(
                    "r".into(),
                    json!(guard(|| d.iter().for_each(|x| w.add_sample(*x))).is_ok()),
                );
                all.extend(d);
            }
            "save" => {
                r.insert("r".into(), json!(guard(|| w.to_file(path)).is_ok()));
            }
            "bulk" => {
                let d = gen(o);
                r.insert("r".into(), json!(guard(|| WavBrro::to_file_with_data(path, &d)).is_ok()));
            }
            "read" => match guard(|| WavBrro::from_file(path)) {
                Ok(Ok(d)) => {
                    r.insert("n".into(), json!(d.len()));
                    if full {
                        r.insert("data".into(), json!(unseries(&d)));
                    } else {
                        // the part the model does not carry: are these the samples of positions 0..n
                        r.insert(
                            "same".into(),
                            json!(d.iter().enumerate().all(|(i, x)| x.to_bits() == (i as f64 * 1.5 + 0.25).to_bits())),
                        );
                    }
                }
                Ok(Err(_)) => {
                    r.insert("n".into(), json!(-1));
                }
                Err(_) => {
                    r.insert("n".into(), json!(-2));
                }
            },
            "reload" => {
                let res = guard(|| {
                    let b = std::fs::read(path).unwrap();
                    WavBrro::from_bytes(&aligned(&b[12..]))
                });
                r.insert("r".into(), json!(res.is_ok()));
                if let Ok(n) = res {
                    w = n;
                }
            }
            "file" => {
                let b = std::fs::read(path).unwrap_or_default();
                r.insert("len".into(), json!(b.len()));
                if full {
                    r.insert("bytes".into(), json!(hex(&b)));
                }
                // what bulk writing of the same series gives
                let p2 = format!("{file}.bulk");
                let same = guard(|| {
                    let d = w.clone().get_samples();
                    WavBrro::to_file_with_data(Path::new(&p2), &d);
                    std::fs::read(&p2).unwrap()
                });
                let _ = std::fs::remove_file(&p2);
                r.insert("bulk_same".into(), json!(matches!(same, Ok(x) if x == b)));
            }
            "look" => {
                r.insert("count".into(), json!(w.sample_count));
                r.insert("bitdepth".into(), json!(w.bitdepth));
                r.insert(
                    "blocks".into(),
                    json!(w.chunks.iter().map(|c| c.len()).collect::<Vec<_>>()),
                );
                r.insert("n".into(), json!(w.clone().get_samples().len()));
                if full {
                    r.insert("data".into(), json!(unseries(&w.clone().get_samples())));
                }
            }
            "put" => {
                std::fs::write(path, unhex(o["bytes"].as_str().unwrap())).unwrap();
            }
            "rm" => {
                let _ = std::fs::remove_file(path);
            }
            x => panic!("wbro op {x}"),
        }
        obs.push(Value::Object(r));
    }
    let _ = std::fs::remove_file(path);
    m.insert("obs".into(), json!(obs));
}

fn aligned(b: &[u8]) -> AlignedBytes {
    // rkyv wants its bytes aligned, as the Vec that read_wavbrro_file gives happens to be
    let mut v: Vec<u64> = vec![0; b.len().div_ceil(8)];
    for (i, x) in b.iter().enumerate() {
        let sh = 8 * (i % 8);
        v[i / 8] |= (*x as u64) << sh;
    }
    AlignedBytes { v, n: b.len() }
}
struct AlignedBytes {
    v: Vec<u64>,
    n: usize,
}
impl std::ops::Deref for AlignedBytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.v.as_ptr() as *const u8, self.n) }
    }
}

fn op_csv(c: &Value, m: &mut Map<String, Value>) {
    let file = c["file"].as_str().unwrap();
    let r = guard(|| {
        if c["header"].as_bool().unwrap() {
            atsc::csv::read_samples_with_headers(
                Path::new(file),
                c["time"].as_str().unwrap(),
                c["value"].as_str().unwrap(),
            )
        } else {
            atsc::csv::read_samples(Path::new(file))
        }
    });
    match r {
        Ok(Ok(s)) => {
            m.insert("out".into(), json!(unseries(&s.iter().map(|s| s.value).collect::<Vec<_>>())));
        }
        Ok(Err(_)) => {
            m.insert("err".into(), json!(true));
        }
        Err(_) => {
            m.insert("err".into(), json!("panic"));
        }
    }
}

/// Writes or reads WBRO files
fn op_wfile(c: &Value, m: &mut Map<String, Value>) {
    let path = c["path"].as_str().unwrap();
    if c.get("data").is_some() {
        let d = series(&c["data"]);
        let r = guard(|| WavBrro::to_file_with_data(Path::new(path), &d));
        m.insert("ok".into(), json!(r.is_ok()));
    } else {
        match guard(|| WavBrro::from_file(Path::new(path))) {
            Ok(Ok(d)) => {
                m.insert("out".into(), json!(unseries(&d)));
            }
            Ok(Err(_)) => {
                m.insert("err".into(), json!(true));
            }
            Err(_) => {
                m.insert("panic".into(), json!(true));
            }
        }
    }
}

fn op_error(c: &Value, m: &mut Map<String, Value>) {
    let o = series(&c["orig"]);
    let g = series(&c["gen"]);
    use atsc::utils::error as e;
    let all: [(&str, fn(&[f64], &[f64]) -> f64); 6] = [
        ("default", e::calculate_error),
        ("mape", e::error_mape),
        ("mae", e::error_mae),
        ("mse", e::error_mse),
        ("nmse", e::error_nmsqe),
        ("smape", e::error_smape),
    ];
    // the same by name
    let named: [(&str, fn() -> e::ErrorMethod); 6] = [
        ("default", || e::ErrorMethod::default()),
        ("mape", || e::ErrorMethod::Mape),
        ("mae", || e::ErrorMethod::Mae),
        ("mse", || e::ErrorMethod::Mse),
        ("nmse", || e::ErrorMethod::Nmse),
        ("smape", || e::ErrorMethod::Smape),
    ];
    for (n, f) in named {
        match guard(|| f().error(&o, &g)) {
            Ok(x) => m.insert(format!("named_{n}"), json!(format!("{:016x}", x.to_bits()))),
            Err(_) => m.insert(format!("named_{n}"), json!("panic")),
        };
    }
    for (n, f) in all {
        match guard(|| f(&o, &g)) {
            Ok(x) => m.insert(n.into(), json!(format!("{:016x}", x.to_bits()))),
            Err(_) => m.insert(n.into(), json!("panic")),
        };
    }
}

fn op_stats(c: &Value, m: &mut Map<String, Value>) {
    let s = series(&c["s"]);
    let bits = |x: f64| json!(format!("{:016x}", x.to_bits()));
    match guard(|| atsc::optimizer::utils::DataStats::new(&s)) {
        Ok(t) => {
            m.insert("min".into(), bits(t.min));
            m.insert("max".into(), bits(t.max));
            m.insert("mean".into(), bits(t.mean));
            m.insert("minat".into(), json!(t.min_loc));
            m.insert("maxat".into(), json!(t.max_loc));
            m.insert("fractional".into(), json!(t.fractional));
            m.insert("bitdepth".into(), json!(format!("{:?}", t.bitdepth)));
        }
        Err(_) => {
            m.insert("panic".into(), json!(true));
        }
    };
}

fn op_clock(c: &Value, m: &mut Map<String, Value>) {
    let ts = c["ts"].as_i64().unwrap();
    if let Ok(x) = guard(|| vsri::day_elapsed_seconds(ts)) {
        m.insert("elapsed".into(), json!(x));
    }
    let dt = chrono::DateTime::<chrono::Utc>::from_timestamp(ts, c["ns"].as_u64().unwrap() as u32).unwrap();
    if let Ok(x) = guard(|| vsri::start_day_ts(dt)) {
        m.insert("start".into(), json!(x));
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let c: Value = serde_json::from_str(&line).unwrap();
        let mut m = Map::new();
        match c["op"].as_str().unwrap() {
            "codec" => op_codec(&c, &mut m),
            "stream" => op_stream(&c, &mut m),
            "pipe" => op_pipe(&c, &mut m),
            "load" => op_load(&c, &mut m),
            "threads" => op_threads(&c, &mut m),
            "cuts" => op_cuts(&c, &mut m),
            "dec" => op_dec(&c, &mut m),
            "plan" => op_plan(&c, &mut m),
            "planlen" => op_planlen(&c, &mut m),
            "vsri" => op_vsri(&c, &mut m),
            "wbro" => op_wbro(&c, &mut m),
            "wfile" => op_wfile(&c, &mut m),
            "csv" => op_csv(&c, &mut m),
            "error" => op_error(&c, &mut m),
            "stats" => op_stats(&c, &mut m),
            "clock" => op_clock(&c, &mut m),
            x => panic!("op {x}"),
        }
        let mut o = stdout.lock();
        serde_json::to_writer(&mut o, &Value::Object(m)).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}
