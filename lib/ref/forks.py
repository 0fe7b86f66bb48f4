"""Fork indices and names, oldest first."""
import os

NAMES = [
    "frontier", "homestead", "dao_fork", "tangerine_whistle",
    "spurious_dragon", "byzantium", "constantinople", "istanbul",
    "muir_glacier", "berlin", "london", "arrow_glacier", "gray_glacier",
    "paris", "shanghai", "cancun", "prague", "osaka",
]
(FRONTIER, HOMESTEAD, DAO, TANGERINE, SPURIOUS, BYZANTIUM, CONSTANTINOPLE,
 ISTANBUL, MUIR, BERLIN, LONDON, ARROW, GRAY, PARIS, SHANGHAI, CANCUN,
 PRAGUE, OSAKA) = range(18)
INDEX = {n: i for i, n in enumerate(NAMES)}
ALL = list(range(18))
if os.environ.get("VERIF_FORKS"):  # development aid (tools/mutate.py): restrict the exploration
    ALL = [INDEX[n] for n in os.environ["VERIF_FORKS"].split(",")]
