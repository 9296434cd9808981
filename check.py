#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only CASE]"""
import argparse, os, signal, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import props
from vlib.runner import Ctx, NoAnswer
from vlib.build import BuildError


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    fn, level, technique = props.PROPS[a.prop]
    ctx = Ctx(a.prop, a.tier, level, technique)
    ctx.only = a.only
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(4))
    try:
        try:
            fn(ctx)
            return ctx.finish()
        except (BuildError, NoAnswer) as e:
            if ctx.viols:
                return ctx.finish()
            print("no answer: %s" % e)
            return 2
        except Exception:
            traceback.print_exc()
            return ctx.finish() if ctx.viols else 2
    finally:
        if not a.keep:
            ctx.work.close()


sys.exit(main())
