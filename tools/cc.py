"""compile one probe and show the errors: cc.py file.cpp"""
import sys
sys.path.insert(0, 'vc')
import build
try:
    print(build.ir_one(build.HERE + '/vc/probe/' + sys.argv[1]))
except build.BuildError as e:
    print(str(e)[-4000:])
