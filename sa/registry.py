"""Which analysis decides which property."""


def runner(pid):
    if pid.startswith("F"):
        from . import fchecks

        return fchecks.run
    if pid in ("G01", "G02", "G03", "A04"):
        from . import gchecks

        return gchecks.run
    if pid == "A05":
        from . import valid

        return valid.run
    if pid in ("A02", "A03"):
        from . import achecks

        return achecks.run
    if pid == "A01":
        from . import query

        return query.run
    if pid.startswith("V"):
        from . import vchecks

        return vchecks.run
    raise SystemExit("no check for " + pid)
