"""Which world decides which property."""

import importlib

WORLDS = {
    "C01": "store:CrashWorld",
    "C02": "store:HistoryWorld",
    "C03": "store:RejectWorld",
    "C13": "store:StatsWorld",
    "C04": "people:TrimWorld",
    "C05": "people:PickWorld",
    "C06": "maxfiles:MaxWorld",
    "C07": "shotfiles:IngestWorld",
    "C08": "shotfiles:ExportWorld",
    "C09": "mseed:ExtractWorld",
    "C16": "inspect:InspectWorld",
    "C14": "replacement:ReplacementWorld",
    "C15": "transforms:TransformWorld",
    "C12": "records:RecordWorld",
    "C10": "independence:RunsWorld",
    "C11": "workflows:WorkflowWorld",
}


def ids():
    return sorted(WORLDS)


def world(prop):
    mod, cls = WORLDS[prop].split(":")
    w = getattr(importlib.import_module(f"swsim.worlds.{mod}"), cls)()
    w.prop = prop
    return w
