#!/usr/bin/env python3
"""check.py <property>: decides one property. Exit 0: held on everything explored. Exit 1: violated. Exit 2: no verdict."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import codec_checks as cc
import vsri_checks as vs
import wbro_checks as wb
import cli_checks as cl
import csv_checks as cv
import tool_checks as tc
import io_checks as io
import more_checks as mo

BINARIES = {'C01', 'C02', 'C03', 'C04', 'C05', 'C08', 'C11', 'C12', 'C13', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C27', 'C28', 'C29', 'C30', 'C31', 'C34'}


def table():
    t = {'C%02d' % k: getattr(cc, 'c%02d' % k) for k in range(1, 14)}
    t['C14'] = wb.c14
    t.update(C35=cc.c35, C36=cc.c36, C37=cc.c37)
    t.update(C20=cl.c20, C21=cl.c21, C22=cv.c22, C23=cv.c23, C24=cl.c24, C25=cv.c25)
    t.update(C27=tc.c27, C28=tc.c28, C29=io.c29, C30=io.c30, C31=mo.c31, C32=mo.c32, C33=mo.c33, C34=mo.c34, C38=mo.c38, C26=vs.c26)
    t.update({'C%02d' % k: getattr(vs, 'c%02d' % k) for k in (15, 16, 17, 18, 19, 26)})
    return t


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    c = vlib.Check(prop)
    try:
        c.build_s = vlib.build(prop in BINARIES)
        table()[prop](c)
        rc = c.finish()
    except vlib.ToolError as e:
        print('no verdict on %s: %s' % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.close()
    sys.exit(rc)


if __name__ == '__main__':
    main()
