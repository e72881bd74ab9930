exec python3 /verif/checks/c36.py "$1" 
