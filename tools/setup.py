"""Nothing has to be built: check that the framework can be imported"""

import os
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))

from simfi import boot

boot.prepare()
boot.import_fluidimage()
(VERIF / "evidence").mkdir(exist_ok=True)
print("ok")
sys.stdout.flush()
os._exit(0)
