CONSTANTS Ranges = {1, 2, 4}
          MeanMax = 6
          MaxDnv = 3
          Roots = {1, 2, 3}
          MaxWalker = 3
SPECIFICATION Spec
INVARIANTS DnvBounds DnvMonotone DnvScales
