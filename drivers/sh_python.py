"""The python3 that the shell wrappers find: the interpreter of the checks, on
a host and for a user of the scenario's choosing.  HOST USER ARGS..."""
import getpass
import os
import platform
import runpy
import socket
import sys

host, user = sys.argv[1:3]
args = sys.argv[3:]
while args and args[0] in ("-E", "-s", "-B", "-I", "-Es", "-sE"):
    args.pop(0)
socket.gethostname = lambda: host
platform.node = lambda: host
getpass.getuser = lambda: user
sys.dont_write_bytecode = True
if args[:1] == ["-c"]:
    sys.argv = args
    exec(compile(args[1], "-c", "exec"), {"__name__": "__main__"})
elif args[:1] in (["--version"], ["-V"]):
    print("Python 3.12.3")
else:
    sys.argv = args
    sys.path[0] = os.path.dirname(os.path.abspath(args[0]))
    runpy.run_path(args[0], run_name="__main__")
