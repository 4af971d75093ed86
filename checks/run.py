#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough"""
import importlib, os, sys
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
sys.path[:0] = ["/verif/tools", "/verif/checks"]
import vlib
MODULES = {"C01": "heap", "C02": "heap", "C03": "heap", "C04": "heap", "C05": "elwise", "C06": "reduce", "C07": "number", "C08": "dtypes", "C09": "dtypes", "C10": "calls", "C13": "options", "C17": "calls", "C18": "texts", "C12": "strings", "C11": "jsons", "C16": "blocks", "C15": "compare", "C14": "arith", "C19": "selects", "C20": "threads", "C21": "halves", "C22": "prints"}
pid = sys.argv[1]
vlib.main(lambda: importlib.import_module(MODULES[pid]).run(pid))
