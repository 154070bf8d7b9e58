"""Which worlds decide which property, and how much each tier explores."""


def worlds_of(prop):
    if prop == "P01":
        from .worlds.ljh_reader import LJHReader
        return [LJHReader()]
    if prop == "P02":
        from .worlds.off_reader import OffReader
        return [OffReader()]
    if prop == "P03":
        from .worlds.expt_state import StateAttribution
        return [StateAttribution()]
    if prop == "P04":
        from .worlds.expt_state import StateFileTail
        return [StateFileTail()]
    if prop == "P05":
        from .worlds.off_group import OffGroupLive
        return [OffGroupLive()]
    if prop == "P06":
        from .worlds.triggers import NearestArrivals, OffTriggers, TesTriggers
        return [NearestArrivals(), OffTriggers(), TesTriggers()]
    if prop == "P07":
        from .worlds.ljh_tools import LJHTools
        return [LJHTools()]
    if prop == "P08":
        from .worlds.ljh2off import LJH2OFF
        return [LJH2OFF()]
    if prop == "P11":
        from .worlds.tes_division import TesDivision
        return [TesDivision()]
    if prop == "P12":
        from .worlds.cuts import CutHistory
        return [CutHistory()]
    if prop == "P09":
        from .worlds.tes_restart import TesRestart
        return [TesRestart()]
    if prop == "P10":
        from .worlds.tes_restart import TesRedo
        return [TesRedo()]
    if prop == "P13":
        from .worlds.tes_isolation import TesIsolation, TesMarks
        return [TesMarks(), TesIsolation()]
    if prop == "P14":
        from .worlds.off_isolation import OffIsolation, OffMarks
        return [OffMarks(), OffIsolation()]
    if prop == "P15":
        from .worlds.saved_objects import SavedObjects
        return [SavedObjects()]
    if prop == "P16":
        from .worlds.recipes import Recipes
        return [Recipes()]
    if prop == "P17":
        from .worlds.raw_files import RawFiles
        return [RawFiles()]
    if prop == "P18":
        from .worlds.resources import Resources
        return [Resources()]
    if prop == "P22":
        from .worlds.noise import Noise
        return [Noise()]
    if prop == "P21":
        from .worlds.file_names import FileNames
        return [FileNames()]
    if prop == "P20":
        from .worlds.exports import OffExports, TesExports
        return [OffExports(), TesExports()]
    if prop == "P19":
        from .worlds.crosstalk import Crosstalk
        return [Crosstalk()]
    raise KeyError(prop)


# property -> tier -> (maximum number of runs, wall seconds of search)
BUDGET = {
    "P01": {"quick": (30000, 45), "thorough": (200000, 600)},
    "P02": {"quick": (15000, 45), "thorough": (200000, 600)},
    "P03": {"quick": (80000, 40), "thorough": (1000000, 600)},
    "P06": {"quick": (10000, 90), "thorough": (500000, 600)},
    "P08": {"quick": (6000, 60), "thorough": (200000, 600)},
    "P11": {"quick": (3000, 80), "thorough": (100000, 600)},
    "P12": {"quick": (3000, 70), "thorough": (100000, 600)},
    "P13": {"quick": (6000, 90), "thorough": (100000, 600)},
    "P16": {"quick": (30000, 60), "thorough": (500000, 600)},
    "P17": {"quick": (20000, 80), "thorough": (500000, 600)},
    "P19": {"quick": (8000, 45), "thorough": (500000, 600)},
    "P21": {"quick": (10000, 45), "thorough": (500000, 600)},
    "P22": {"quick": (10000, 45), "thorough": (500000, 600)},
    "P20": {"quick": (8000, 60), "thorough": (500000, 700)},
    "P18": {"quick": (20000, 60), "thorough": (500000, 600)},
    "P15": {"quick": (20000, 60), "thorough": (500000, 600)},
    "P14": {"quick": (6000, 90), "thorough": (100000, 600)},
    "P09": {"quick": (3000, 80), "thorough": (100000, 600)},
    "P10": {"quick": (3000, 80), "thorough": (100000, 600)},
    "P07": {"quick": (40000, 60), "thorough": (500000, 600)},
    "P05": {"quick": (10000, 60), "thorough": (100000, 600)},
    "P04": {"quick": (80000, 40), "thorough": (500000, 600)},
}
