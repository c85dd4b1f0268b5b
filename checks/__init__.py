REGISTRY = {}
for _mod, _ids in {
    "classif": ["C01", "C02", "C03", "C04", "C06"],
    "regr": ["C05", "C07"],
    "pipeline": ["C08", "C09"],
    "stats": ["C10", "C11", "C12", "C13", "C14", "C15", "C16"],
    "curves": ["C17", "C18", "C19", "C20"],
    "fmt": ["C21", "C22", "C23", "C24", "C25"],
    "split": ["C26", "C27", "C28", "C29"],
    "misc": ["C30", "C31", "C32"],
    "endtoend": ["C33"],
}.items():
    for _i in _ids:
        REGISTRY[_i] = _mod
