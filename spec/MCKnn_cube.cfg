SPECIFICATION Spec
CONSTANTS
  L = 3
  Grids = {2, 3, 4}
  Xs = {1, 5, 8}
  Ys = {2, 4, 7}
  Zs = {1, 3, 10}
  Others = 2
  Slack = 0
INVARIANT KNearest
CHECK_DEADLOCK FALSE
