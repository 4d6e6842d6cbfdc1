import sys, json, subprocess, extract, uc
mod = extract.bitcode(sys.argv[1])[0]
json.dump({"listfields": sys.argv[2], "runs": []}, open("/tmp/lf.json", "w"))
print(subprocess.run([uc.tool(), mod, "/tmp/lf.json"], stdout=subprocess.PIPE, text=True).stdout)
