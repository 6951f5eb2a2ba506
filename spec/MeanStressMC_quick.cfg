CONSTANTS Ranges = {1, 2, 3, 5}
          MeanMax = 7
          MaxDnv = 2
          Roots = {1, 2, 3, 5}
          MaxWalker = 2
SPECIFICATION Spec
INVARIANTS DnvBounds DnvMonotone DnvScales
