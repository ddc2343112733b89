"""python harness/check.py <property> [--tier quick|thorough] [--seed N]"""
import sys
from common import main

MODULES = {"C01": "chk_asktell", "C02": "chk_asktell", "C03": "chk_asktell", "C04": "chk_minimize", "C05": "chk_constraints", "C07": "chk_multi", "C08": "chk_multi", "C09": "chk_population", "C10": "chk_recast", "C11": "chk_replay", "C12": "chk_replay", "C13": "chk_param", "C14": "chk_layout", "C15": "chk_layers", "C16": "chk_plan", "C17": "chk_generations", "C18": "chk_callbacks", "C19": "chk_meta", "C20": "chk_executor", "C21": "chk_functions", "C22": "chk_sequences", "C23": "chk_variation", "C24": "chk_folders"}

if __name__ == "__main__":
    sys.exit(main(MODULES))
