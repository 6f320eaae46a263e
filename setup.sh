#!/bin/bash
# nothing to build: the checks import /repo's working tree under the interpreter the repository is built for
PY="${VERIF_PY:-/opt/pvenv/bin/python}"
"$PY" -W ignore -c "import numpy, scipy; print('python', __import__('sys').version.split()[0], 'numpy', numpy.__version__, 'scipy', scipy.__version__)"
