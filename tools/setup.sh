#!/bin/sh
# Nothing to compile: verify that the interpreter and servers the checks use are present.
set -e
/opt/venv/bin/python -c "import sqlalchemy, pymysql, psycopg2, pydantic, faker"
test -x /usr/lib/postgresql/16/bin/initdb
test -x /usr/sbin/mysqld
cd "$(dirname "$0")/.."
for f in mc/*.py checks/*.py; do
  /usr/bin/python3 -c "import sys; compile(open(sys.argv[1]).read(), sys.argv[1], 'exec')" "$f"
done
echo setup ok
