exec python3 /verif/checks/c32.py "$1"
