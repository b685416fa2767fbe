exec python3 "$here/probe/drive.py" C24
