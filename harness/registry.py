"""What each check runs."""

PROPS = {
    "P01": dict(
        level="model_checking",
        models=[dict(module="MC_IsoStack", cfg="MC_IsoStack", workers=2)],
        traces=[dict(driver="iso", trace="Tr_Iso",
                     gen=[dict(module="Gen_Iso", cfg="Gen_Iso", simulate={"quick": (40, 5), "thorough": (400, 5)})])],
    ),
    "P02": dict(
        level="model_checking",
        models=[dict(module="MC_IsoStack", cfg="MC_IsoStack", workers=2), dict(module="MC_Berreman", cfg="MC_Berreman", workers=4)],
        traces=[dict(driver="energy", trace="Tr_Energy")],
    ),
    "P03": dict(
        level="model_checking",
        models=[dict(module="MC_Mat", cfg="MC_Mat"), dict(module="MC_Berreman", cfg="MC_Berreman", workers=4)],
        traces=[dict(driver="ani", trace="Tr_Ani", shards=8)],
    ),
    "P04": dict(
        level="model_checking",
        models=[dict(module="MC_Mat", cfg="MC_Mat"), dict(module="MC_Berreman", cfg="MC_Berreman", workers=4)],
        traces=[dict(driver="routes", trace="Tr_Routes")],
    ),
    "P05": dict(
        level="model_checking",
        models=[dict(module="MC_Containers", cfg="MC_Containers", workers=4)],
        traces=[dict(driver="containers", trace="Tr_Containers",
                     gen=[dict(module="MC_Containers", cfg="Gen_Containers", simulate={"quick": (60, 11), "thorough": (600, 11)},
                               limit={"quick": 100, "thorough": 1200})])],
    ),
    "P06": dict(
        level="model_checking",
        models=[dict(module="MC_Wave", cfg="MC_Wave")],
        traces=[dict(driver="wave", trace="Tr_Wave")],
    ),
}

PROPS["P08"] = dict(
    level="model_checking",
    models=[dict(module="MC_Result", cfg="MC_Result", workers=4)],
    traces=[dict(driver="result", trace="Tr_Result")],
)
PROPS["P09"] = dict(
    level="model_checking",
    models=[dict(module="MC_Result", cfg="MC_Result", workers=4)],
    traces=[dict(driver="result", trace="Tr_Result",
                 gen=[dict(module="MC_Result", cfg="Gen_Result", simulate={"quick": (50, 13), "thorough": (500, 13)},
                           limit={"quick": 80, "thorough": 800})])],
)

PROPS["P11"] = dict(
    level="model_checking",
    models=[dict(module="MC_Dispersion", cfg="MC_Dispersion", workers=6)],
    traces=[dict(driver="dispersion", trace="Tr_Dispersion", shards=8)],
)

PROPS["P13"] = dict(
    level="model_checking",
    models=[dict(module="MC_Table", cfg="MC_Table", workers=2)],
    traces=[dict(driver="dispersion", trace="Tr_Dispersion",
                 gen=[dict(module="MC_Table", cfg="Gen_Table", limit={"quick": 250, "thorough": 1957})])],
)

PROPS["P10"] = dict(
    level="model_checking",
    models=[dict(module="MC_Params", cfg="MC_Params", workers=4)],
    traces=[dict(driver="params", trace="Tr_Params",
                 gen=[dict(module="MC_Params", cfg="Gen_Params", simulate={"quick": (120, 10), "thorough": (1500, 10)},
                           limit={"quick": 200, "thorough": 3000})])],
)

PROPS["P12"] = dict(
    level="model_checking",
    models=[dict(module="MC_Sums", cfg="MC_Sums", workers=4)],
    traces=[dict(driver="sums", trace="Tr_Sums",
                 gen=[dict(module="MC_Sums", cfg="Gen_Sums", simulate={"quick": (60, 8), "thorough": (1000, 8)},
                           limit={"quick": 140, "thorough": 3000})])],
)

PROPS["P16"] = dict(
    level="model_checking",
    models=[dict(module="MC_Kkr", cfg="MC_Kkr", workers=4)],
    traces=[dict(driver="kkr", trace="Tr_Kkr",
                 gen=[dict(module="MC_Kkr", cfg="Gen_Kkr", simulate={"quick": (60, 5), "thorough": (800, 5)}, limit={"quick": 80, "thorough": 1500})])],
)

MATERIALS_GEN = dict(module="MC_Materials", cfg="Gen_Materials", simulate={"quick": (60, 11), "thorough": (800, 11)}, limit={"quick": 70, "thorough": 1500})
PROPS["P14"] = dict(
    level="model_checking",
    models=[dict(module="MC_Materials", cfg="MC_Materials", workers=4)],
    traces=[dict(driver="materials", trace="Tr_Materials", gen=[MATERIALS_GEN])],
)
PROPS["P15"] = dict(
    level="model_checking",
    models=[dict(module="MC_Mixing", cfg="MC_Mixing", workers=4)],
    traces=[dict(driver="materials", trace="Tr_Materials", gen=[MATERIALS_GEN])],
)

PROPS["P17"] = dict(
    level="model_checking",
    models=[dict(module="MC_Formula", cfg="MC_Formula", workers=4), dict(module="MC_Formula", cfg="MC_FormulaText", workers=4)],
    traces=[dict(driver="formula", trace="Tr_Formula",
                 gen=[dict(module="MC_Formula", cfg="Gen_Formula", simulate={"quick": (250, 17), "thorough": (6000, 17)}, limit={"quick": 400, "thorough": 10000})])],
)

PROPS["P18"] = dict(
    level="model_checking",
    models=[dict(module="MC_Files", cfg="MC_Files", workers=4)],
    traces=[dict(driver="files", trace="Tr_Files",
                 gen=[dict(module="MC_Files", cfg="Gen_Files", simulate={"quick": (120, 18), "thorough": (1500, 18)}, limit={"quick": 200, "thorough": 3000})])],
)

PROPS["P24"] = dict(
    level="model_checking",
    models=[dict(module="MC_Light", cfg="MC_Light", workers=4)],
    traces=[dict(driver="light", trace="Tr_Light",
                 gen=[dict(module="MC_Light", cfg="Gen_Light", simulate={"quick": (80, 11), "thorough": (1500, 11)}, limit={"quick": 160, "thorough": 3000})])],
)
PROPS["P25"] = dict(
    level="model_checking",
    models=[dict(module="MC_ResultList", cfg="MC_ResultList", workers=4)],
    traces=[dict(driver="results", trace="Tr_ResultList",
                 gen=[dict(module="MC_ResultList", cfg="Gen_ResultList", simulate={"quick": (60, 13), "thorough": (1500, 13)}, limit={"quick": 60, "thorough": 1500})])],
)

PROPS["P23"] = dict(
    level="model_checking",
    models=[dict(module="MC_Convert", cfg="MC_Convert", workers=4)],
    traces=[dict(driver="convert", trace="Tr_Convert",
                 gen=[dict(module="MC_Convert", cfg="Gen_Convert", simulate={"quick": (60, 9), "thorough": (1200, 9)}, limit={"quick": 60, "thorough": 1200})])],
)

PROPS["P21"] = dict(
    level="model_checking",
    models=[dict(module="MC_History", cfg="MC_History", workers=4)],
    traces=[dict(driver="history", trace="Tr_History",
                 gen=[dict(module="MC_History", cfg="Gen_History", simulate={"quick": (150, 18), "thorough": (2500, 18)}, limit={"quick": 250, "thorough": 5000})])],
)

PROPS["P22"] = dict(
    level="model_checking",
    models=[dict(module="MC_Session", cfg="MC_Session", workers=4)],
    traces=[dict(driver="session", trace="Tr_Session",
                 gen=[dict(module="MC_Session", cfg="Gen_Session", simulate={"quick": (90, 16), "thorough": (1200, 16)}, limit={"quick": 90, "thorough": 1200})])],
)

PROPS["P07"] = dict(
    level="model_checking",
    models=[dict(module="MC_World", cfg="MC_World", workers=4)],
    traces=[dict(driver="world", trace="Tr_World",
                 gen=[dict(module="MC_World", cfg="Gen_World", simulate={"quick": (150, 16), "thorough": (2500, 16)}, limit={"quick": 150, "thorough": 2500})])],
)

PROPS["P19"] = dict(
    level="model_checking",
    models=[dict(module="MC_Nexus", cfg="MC_Nexus", workers=4), dict(module="MC_Nexus", cfg="MC_NexusMat", workers=4)],
    traces=[dict(driver="nexus", trace="Tr_Nexus",
                 gen=[dict(module="MC_Nexus", cfg="Gen_Nexus", simulate={"quick": (120, 12), "thorough": (1500, 12)}, limit={"quick": 120, "thorough": 1500}),
                      dict(module="MC_Nexus", cfg="Gen_NexusMat", simulate={"quick": (120, 12), "thorough": (1500, 12)}, limit={"quick": 120, "thorough": 1500})])],
)

PROPS["P20"] = dict(
    level="model_checking",
    models=[dict(module="MC_Rii", cfg="MC_Rii", workers=4)],
    traces=[dict(driver="rii", trace="Tr_Rii",
                 gen=[dict(module="MC_Rii", cfg="Gen_Rii", simulate={"quick": (200, 26), "thorough": (1500, 26)}, limit={"quick": 200, "thorough": 1500})])],
)

PROPS["P26"] = dict(
    level="model_checking",
    models=[dict(module="MC_Plots", cfg="MC_Plots", workers=2)],
    traces=[dict(driver="plots", trace="Tr_Plots",
                 gen=[dict(module="MC_Containers", cfg="Gen_Containers", simulate={"quick": (40, 11), "thorough": (400, 11)}, limit={"quick": 50, "thorough": 600})])],
)
