def get(name):
    from . import clf, od, seg

    return {"clf": clf, "od": od, "seg": seg}[name]
