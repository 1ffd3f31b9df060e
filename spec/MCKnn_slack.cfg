SPECIFICATION Spec
CONSTANTS
  L = 4
  Grids = {1, 2, 3}
  Xs = {1, 4, 6, 11}
  Ys = {3, 5, 8, 9}
  Zs = {2}
  Others = 3
  Slack = 1
INVARIANT KNearest
CHECK_DEADLOCK FALSE
