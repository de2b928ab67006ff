"""helper of the demonstrations: a project from plain dictionaries, no database"""
import warnings

warnings.simplefilter("ignore")
from metrics_layer.core import MetricsLayerConnection  # noqa: E402
from metrics_layer.core.model.project import Project  # noqa: E402
from metrics_layer.core.parse.connections import BaseConnection  # noqa: E402


def connect(views, kind="SNOWFLAKE", model=None, **kw):
    class Fake(BaseConnection):
        def __init__(self):
            self.name, self.type = "c", kind

        def to_dict(self):
            return {"name": self.name, "type": self.type}

    m = dict(version=1, type="model", name="m", connection="c")
    m.update(model or {})
    return MetricsLayerConnection(project=Project(models=[m], views=views, **kw), connections=[Fake()])


def view(name, fields, identifiers=(), **kw):
    return dict(version=1, type="view", name=name, model_name="m", sql_table_name="t_" + name, identifiers=list(identifiers),
                fields=list(fields), **kw)


def dim(name, type="string", **kw):
    return dict(name=name, field_type="dimension", type=type, sql="${TABLE}.%s" % name, **kw)


def time(name, timeframes=("raw", "date", "week", "month", "year"), **kw):
    return dict(name=name, field_type="dimension_group", type="time", sql="${TABLE}.%s" % name, timeframes=list(timeframes), **kw)


def met(name, type, sql=None, **kw):
    d = dict(name=name, field_type="measure", type=type, **kw)
    if sql:
        d["sql"] = sql
    return d


def key(name, type="primary"):
    return dict(name=name, type=type, sql="${%s}" % name)
