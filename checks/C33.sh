exec python3 /verif/checks/c33.py "$1"
