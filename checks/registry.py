# property id -> (module, function, level)
CHECKS = {
    "C01": ("core", "session", "model_checking"),
    "C02": ("core", "chain", "model_checking"),
    "C03": ("core", "flexml", "model_checking"),
    "C07": ("core", "package", "model_checking"),
    "C08": ("pure", "html", "model_checking"),
    "C09": ("pure", "url", "model_checking"),
    "C04": ("flexcfg", "config", "model_checking"),
    "C05": ("flexcfg", "lifecycle", "model_checking"),
    "C06": ("core", "factory", "model_checking"),
    "C11": ("core", "origin", "model_checking"),
    "C10": ("pure", "xmlvalues", "model_checking"),
    "C20": ("filt", "virt_db", "model_checking"),
    "C21": ("filt", "multi", "model_checking"),
    "C22": ("filt", "auth", "model_checking"),
    "C23": ("filt", "load", "model_checking"),
    "C24": ("filt", "limit", "model_checking"),
    "C25": ("filt", "chunk", "model_checking"),
    "C26": ("filt", "sort", "model_checking"),
    "C29": ("infra", "pool", "model_checking"),
    "C31": ("pure", "answers", "model_checking"),
    "C32": ("pure", "names", "model_checking"),
    "C30": ("shared", "shared", "model_checking"),
    "C33": ("testbe", "backend_test", "model_checking"),
    "C34": ("rewrite", "query_rewrite", "model_checking"),
    "C35": ("rewrite", "record_transform", "model_checking"),
    "C36": ("links", "http_rewrite", "model_checking"),
    "C39": ("cql", "cql_rpn", "model_checking"),
    "C40": ("logs", "plain", "model_checking"),
    "C38": ("client", "client", "model_checking"),
    "C37": ("logs", "log", "model_checking"),
    "C28": ("filt", "sru", "model_checking"),
    "C27": ("filt", "http_file", "model_checking"),
    "C43": ("cgi", "cgi", "model_checking"),
    "C42": ("web", "web", "model_checking"),
    "C41": ("front", "frontend", "model_checking"),
}
