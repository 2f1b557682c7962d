"""Nothing to build ahead: checks compile /repo themselves.  Verifies that the tools are there."""
import subprocess,sys,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[H+"/lv",H+"/specs"]
import z3, build, registry
for t in ("clang++","opt","llvm-link","llvm-cxxfilt"): subprocess.run([build.BIN+t,"--version"],check=True,stdout=subprocess.DEVNULL)
os.makedirs(H+"/evidence",exist_ok=True)
print("tools present; %d properties registered"%len(registry.PROPS))
