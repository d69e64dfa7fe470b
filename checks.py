"""Which harness package decides which property, and how."""

CHECKS = {
    "T01": dict(pkg="tags"),
    "T02": dict(pkg="tags"),
    "T03": dict(pkg="tags"),
    "T04": dict(pkg="tags"),
    "P01": dict(pkg="codec"),
    "P02": dict(pkg="codec"),
    "P03": dict(pkg="codec"),
    "P04": dict(pkg="codec"),
    "P05": dict(pkg="codec"),
    "R01": dict(pkg="codec"),
    "R02": dict(pkg="codec"),
    "N01": dict(pkg="codec"),
    "N02": dict(pkg="codec"),
    "N03": dict(pkg="codec"),
    "S01": dict(pkg="spans"),
    "S02": dict(pkg="spans"),
    "S03": dict(pkg="spans"),
    "S04": dict(pkg="spans", race=True),
    "S05": dict(pkg="spans"),
    "S06": dict(pkg="spans", race=True),
    "S07": dict(pkg="spans", race=True),
    "M01": dict(pkg="metrics"),
    "M02": dict(pkg="metrics"),
    "M03": dict(pkg="metrics"),
    "M04": dict(pkg="metrics", race=True),
    "M05": dict(pkg="metrics", race=True),
    "M06": dict(pkg="metrics", race=True),
    "M07": dict(pkg="metrics"),
    "V01": dict(pkg="views"),
    "V02": dict(pkg="views"),
    "V03": dict(pkg="views"),
    "V04": dict(pkg="views"),
    "V05": dict(pkg="views"),
    "V06": dict(pkg="views"),
    "V07": dict(pkg="views", race=True),
    "V08": dict(pkg="views", race=True),
    "V09": dict(pkg="views"),
    "V10": dict(pkg="views"),
    "V11": dict(pkg="views", race=True),
    "H01": dict(pkg="web"),
    "H02": dict(pkg="web"),
    "H03": dict(pkg="web"),
    "H04": dict(pkg="web"),
    "H05": dict(pkg="web"),
    "H06": dict(pkg="web"),
    "H07": dict(pkg="web", race=True),
    "G01": dict(pkg="rpc"),
    "G02": dict(pkg="rpc"),
    "G03": dict(pkg="rpc"),
    "G04": dict(pkg="rpc"),
    "G05": dict(pkg="rpc", race=True),
    "Z01": dict(pkg="pages"),
    "Z02": dict(pkg="pages"),
    "Z03": dict(pkg="pages", race=True),
    "Z04": dict(pkg="pages"),
    "X01": dict(pkg="misc"),
    "X02": dict(pkg="misc", race=True),
    "S08": dict(pkg="spans"),
    "S09": dict(pkg="spans"),
    "M08": dict(pkg="metrics", race=True),
    "E01": dict(pkg="mesh", race=True),
}

# Quick runs of cheap checks generate this many times the cases the test names.
QUICK_SCALE = {
    "E01": 1.5, "G02": 5.5, "G03": 5.5, "G04": 5, "H03": 4, "H04": 6, "H05": 6, "H06": 1.5,
    "M01": 3, "M02": 5.5, "M03": 4.5, "M04": 2, "M05": 4.5, "M06": 3, "M07": 6, "N01": 6,
    "N02": 6, "N03": 6, "P01": 6, "P02": 6, "P03": 1.5, "P04": 6, "P05": 6, "R01": 6,
    "R02": 6, "S01": 6, "S02": 6, "S03": 6, "S04": 1.5, "S05": 6, "S06": 4.5, "S08": 6,
    "T01": 6, "T02": 6, "T03": 6, "T04": 6, "V01": 3.5, "V02": 6, "V05": 2, "V06": 6,
    "V07": 1.5, "V09": 6, "V10": 6, "Z01": 1, "Z04": 1,
}
