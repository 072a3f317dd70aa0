"""Writes sa/interface.json: parameter lists and field names of the tree the obligations are written for (committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import scenario  # noqa: E402
from sa.project import Project  # noqa: E402

with open(os.path.join(ROOT, 'sa', 'interface.json'), 'w') as f:
    json.dump(scenario.describe(Project(sys.argv[1] if len(sys.argv) > 1 else '/repo')), f, indent=0)
    f.write('\n')
