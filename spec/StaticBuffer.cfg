SPECIFICATION SSpec
CONSTANTS Threads = {t1, t2, t3}
          Sites = {s1, s2}
INVARIANTS TypeOK AtMostOnce NeverInVain Handed
PROPERTY Live
CHECK_DEADLOCK FALSE
