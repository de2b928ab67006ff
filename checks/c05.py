"""C05: objects put in place for a while are gone afterwards, however the scope is left."""
import check
import histcheck as h


ONLY = ("answer", "definitions after", "enter", "leave")


def body(c):
    c.assumptions += ["definitions are compared by their JSON text"]
    h.model(c, 4 if c.quick else 5)
    n = 300 if c.quick else 900
    h.run(c, h.histories(c, n, 14, ["scope", "set"], h.ALL, projects=(1,), seed=21), "scopes", ONLY)
    h.run(c, h.histories(c, n // 3, 16, ["scope", "field"], h.ALL, projects=(1,), depth=3, seed=22), "scopes and fields", ONLY)


check.main("C05", body)
