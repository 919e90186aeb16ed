"""Import dedalus quietly and with optional configuration overrides."""
import warnings
warnings.filterwarnings("ignore")
import os, json
from dedalus.tools.config import config
config['logging']['stdout_level'] = 'critical'
config['logging']['file_level'] = 'none'
for k, v in json.loads(os.environ.get("VERIF_CFG", "{}")).items():
    sec, key = k.split(".")
    config[sec][key] = v
import logging
logging.raiseExceptions = False
import numpy as np
import dedalus.public as d3
logging.getLogger().setLevel(logging.CRITICAL)
logging.disable(logging.CRITICAL)
