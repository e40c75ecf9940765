"""C14: instruction budgets against NkBudget"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nkv import budget, progs
from nkv.check import Check

C = Check("C14")
C.build()
budget.machine(C)
cost = budget.calibrate(C)


def round(s):
    budget.check(C, s, 2500, cost)
    budget.exact(C, s, 150)


progs.until(C, 600, round, 2)
C.finish()
