from . import codecs, mobids, layout, graph, access, colls, curves, fresh, mobs, accel, header, saving, printing  # noqa
