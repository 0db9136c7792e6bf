CONSTANTS Methods = {"cp", "ncp"} Sizes = {2} Ranks = {1, 2} Times = {1, 2} Hists = {1, 2} Depth = 2 Broken = "append"
SPECIFICATION Spec
INVARIANT Faithful
PROPERTY Local
CHECK_DEADLOCK FALSE
