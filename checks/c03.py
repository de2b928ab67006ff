"""C03: an answer depends on the present user, time zone and definitions, and on nothing that happened before."""
import check
import histcheck as h


ONLY = ("answer", "user", "zone", "add", "remove", "refresh")


def body(c):
    c.assumptions += ["the present time is held at one instant", "answers are compared as texts; errors by type and message"]
    h.model(c, 4 if c.quick else 5)
    n = 300 if c.quick else 900
    h.run(c, h.histories(c, n, 16, ["set", "field"], h.ALL, seed=1), "users, zones, fields", ONLY)
    h.run(c, h.histories(c, n // 3, 16, ["set"], h.of_kind("sql", "mql"), seed=2), "users, zones", ONLY)


check.main("C03", body)
