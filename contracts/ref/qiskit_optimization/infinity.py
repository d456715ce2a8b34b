INFINITY = 1e+20
