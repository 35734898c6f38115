/opt/venv/bin/python /tmp/w/t2.py "$@" 2>&1 | cut -c1-200
