"""property id -> (rule module, function)"""
RULES = {
    "C01": ("fields", "c01"),
    "C02": ("fields", "c02"),
    "C03": ("fields", "c03"),
    "C04": ("fields", "c04"),
    "C05": ("gates", "c05"),
    "C06": ("gates", "c06"),
    "C07": ("total", "c07"),
    "C09": ("total", "c09"),
    "C08": ("enumr", "c08"),
    "C10": ("inventory", "c10"),
    "C11": ("inventory", "c11"),
    "C12": ("inventory", "c12"),
    "C13": ("values", "c13"),
    "C15": ("values", "c15"),
    "C16": ("values", "c16"),
    "C14": ("inventory", "c14"),
    "C22": ("inventory", "c22"),
    "C19": ("render", "c19"),
    "C25": ("render", "c25"),
    "C26": ("restore", "c26"),
    "C23": ("client", "c23"),
    "C24": ("relate", "c24"),
    "C18": ("relate", "c18"),
    "C21": ("report", "c21"),
    "C27": ("tool", "c27"),
    "C28": ("builds", "c28"),
    "C20": ("report", "c20"),
    "C17": ("fields", "c17"),
}
