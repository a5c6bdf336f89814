"""builds what every check needs (each check also builds it when it is missing or out of date)"""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

build.all()
build.spec()
