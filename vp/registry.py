import importlib
MODULES = {'C01': 'c01_int', 'C02': 'c02_float', 'C03': 'c03_control', 'C04': 'c04_memory', 'C05': 'c05_bitfields', 'C06': 'c06_init', 'C07': 'c07_abi', 'C08': 'c08_varargs', 'C09': 'c09_pressure',
           'C27': 'c27_phases', 'C10': 'c10_constexpr', 'C15': 'c15_literals', 'C20': 'c20_driver', 'C22': 'c22_containers', 'C21': 'c21_names', 'C23': 'c23_layout', 'C11': 'c11_macros', 'C12': 'c12_conditional', 'C13': 'c13_positions', 'C14': 'c14_preprocess_separately', 'C18': 'c18_leaks', 'C19': 'c19_determinism', 'C25': 'c25_self', 'C26': 'c26_debug', 'C17': 'c17_robust', 'C16': 'c16_diagnostics', 'C24': 'c24_analyses'}


def get(pid):
    return importlib.import_module('vp.checks.' + MODULES[pid]).CHECK
