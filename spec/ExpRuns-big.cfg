CONSTANTS Methods = {"cp", "ncp"} Sizes = {2, 3} Ranks = {1, 2} Times = {1, 2} Hists = {1, 2} Depth = 3 Broken = "none"
SPECIFICATION Spec
INVARIANT Faithful
PROPERTY Local
CHECK_DEADLOCK FALSE
