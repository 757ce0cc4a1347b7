
w = World(2, 3, 12)
obs = [w.see(0, f, 0) for f in range(9)]
obs += [w.see(1, f, 1) for f in (0, 1)] + [w.see(1, f, 2) for f in range(2, 9)]
c = cameras(w.run(obs))
assert c[0]["group"] == c[1]["group"], c
