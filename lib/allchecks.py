import copy
import props
from props import CHECKS
from net import NET
from fuzz import FUZZ
from unit import UNIT, ListCheck
from tools import TOOLS
from both import Both
CHECKS.update(NET)
CHECKS.update(FUZZ)
CHECKS.update(UNIT)
CHECKS.update(TOOLS)
CHECKS["C19"] = Both(props.C19, CHECKS["C19"], 2)
CHECKS["C20"] = Both(props.C20, CHECKS["C20"], 4)
text = copy.copy(CHECKS["C03"])
text.id = "C22"
CHECKS["C22"] = Both(text, CHECKS["C22"], 2)
CHECKS["C23"] = Both(props.C23, CHECKS["C23"], 2)
CHECKS["C24"] = Both(CHECKS["C24"], ListCheck(), 2)
from start import StartCheck
CHECKS["C33"] = StartCheck()
