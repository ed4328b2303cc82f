#!/usr/bin/env python3
"""Writes spec/BenchTab.tla, the tables of elementary functions used by spec/Bench.tla (units of 1/16384)."""
import math, os
B = 16384
def seq(f, n): return "<<" + ", ".join(str(round(B * f(i))) for i in range(n)) + ">>"
neg = lambda s: s.replace("-", "-")
out = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "BenchTab.tla"), "w")
out.write("---- MODULE BenchTab ----\n(* Generated by tools/bench_tab.py. *)\nEXTENDS Integers, Sequences\n")
out.write("SinTab == %s\n" % seq(lambda i: math.sin(2 * math.pi * i / 64), 64))     # of i/64 turns
out.write("ExpTab == %s\n" % seq(lambda i: math.exp(-i / 8), 170))                   # of -i/8
out.write("Pow8Tab == %s\n" % seq(lambda i: (i / 8) ** 0.8, 41))
out.write("E1 == %d\nSin1 == %d\nCos1 == %d\n====\n" % (round(B * math.e), round(B * math.sin(1)), round(B * math.cos(1))))
