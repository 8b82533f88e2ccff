"""property id -> scenario."""
import importlib

_WHERE = {
    "C01": "scen_data", "C02": "scen_data", "C03": "scen_data", "C04": "scen_data", "C05": "scen_data",
    "C06": "scen_enum", "C07": "scen_sets", "C08": "scen_sets", "C09": "scen_sets", "C10": "scen_lookup",
    "C16": "scen_update",
    "C11": "scen_build", "C12": "scen_build", "C13": "scen_install", "C14": "scen_xml", "C15": "scen_swap",
}
PROPS = sorted(_WHERE)


def get(prop):
    m = importlib.import_module("." + _WHERE[prop], __package__)
    return m.SCENARIOS[prop]()
