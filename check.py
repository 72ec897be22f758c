#!/usr/bin/env python3
"""check.py ID : decide one property of /repo's working tree; see DESIGN.md"""
import sys, os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'sa'))
sys.dont_write_bytecode=True
import importlib, core
TABLE={}
def reg(mod,**ids):
    for i,fn in ids.items(): TABLE[i]=(mod,fn)
reg('authority',C01='c01',C04='c04')
reg('panics',C05='c05',C09='c09')
reg('bools',C20='c20')
reg('files',C02='c02',C03='c03',C28='c28')
reg('blocks',C25='c25')
reg('math',C06='c06',C07='c07')
reg('paths',C18='c18')
reg('order',C21='c21')
reg('grammar',C10='c10',C11='c11',C36='c36',C37='c37')
reg('conv',C29='c29',C31='c31',C34='c34')
reg('determ',C23='c23')
reg('words',C32='c32')
reg('lists',C08='c08',C27='c27')
reg('text',C22='c22',C30='c30',C33='c33',C38='c38',C39='c39',C40='c40',C41='c41')
reg('fileio',C42='c42',C43='c43')
reg('views',C44='c44',C45='c45')
reg('semantics',C12='c12',C13='c13',C14='c14',C15='c15',C16='c16',C17='c17',C19='c19',C24='c24',C26='c26')
def main():
    pid=sys.argv[1]; m,fn=TABLE[pid]
    return core.run(pid,getattr(importlib.import_module('checks.'+m),fn))
if __name__=='__main__': sys.exit(main())
