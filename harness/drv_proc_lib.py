# Builds message processors.
from twisted.plugins.sli_plugin import SLIMetricFactory
from twisted.plugins.distinct_plugin import DistinctMetricFactory
from txstatsd.server.processor import MessageProcessor
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor
from txstatsd.server.router import Router



def build(cfg, clock):
    sli = SLIMetricFactory()
    if cfg.get("slitext"):
        sli.configure({"plugin_sli": [("rules", cfg["slitext"])]})
    plugins = [sli, DistinctMetricFactory()]
    if cfg["mode"] == "std":
        p = MessageProcessor(time_function=clock, plugins=plugins)
    else:
        kw = {}
        if "intarg" in cfg:
            kw["internal_metrics_prefix"] = cfg["intarg"]
        p = ConfigurableMessageProcessor(
            time_function=clock, message_prefix=cfg["prefix"], plugins=plugins, **kw)
    if cfg.get("router"):
        return p, Router(p, "")
    return p, p
