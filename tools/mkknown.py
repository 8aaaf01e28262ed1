#!/usr/bin/env python3
"""Writes known_findings.json from the list below; not run by any check."""
import json,subprocess,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F=[]
def finding(p,key,what): F.append({"property":p,"status":"finding","key":key,"what":what})
pin=" (existing tests compare whole trees and pin this field or value)"
finding("P15","LimitExpr.Pos:zero","the position of LIMIT is never recorded: LimitExpr.Pos is zero"+pin)
finding("P15","QualifiedWildcardSelectItem.End:prefix+2","t.* with blanks or comments around '.' in a select list: End is two columns after the prefix"+pin)
finding("P15","QualifiedWildcard.End:prefix+2","t.* with blanks or comments around '.' in an expression: End is two columns after the prefix"+pin)
finding("P15","CTE.End:zero","the closing parenthesis of a common table expression is never recorded: CTE.End is zero"+pin)
finding("P15","QueryStmt.Pos:zero:with","the position of WITH is never recorded: QueryStmt.Pos of a query with common table expressions is zero"+pin)
finding("P15","ConstructorSource.Pos:zero","the position of VALUES is never recorded: ConstructorSource.Pos is zero"+pin)
finding("P15","CreateTableStmt.End:end-1:elements-only","CREATE TABLE (...) without options ends at its last element instead of behind the closing parenthesis"+pin)
finding("P18","behind:paren-alone-on-its-line","a comment behind CREATE TABLE (...) whose closing parenthesis stands on a line of its own goes to what follows: the statement's recorded end is its last element's"+pin)
finding("P18","behind:wildcard-split-over-lines","a comment behind a statement that ends with t.* split over lines goes to what follows: the recorded end is two columns after the prefix"+pin)
finding("P18","above:QueryStmt:with-alone-on-its-line","a comment above WITH (alone on its line) and directly below another statement goes to the latter: the position of WITH is never recorded"+pin)
# fixes: commit subject -> property
P=json.load(open(os.path.join(root,"tools","fixes.json")))
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    p=P.get(s[5:])
    if p is None: raise SystemExit("no property for: "+s)
    F.append({"property":p,"status":"fixed","commit":h,"what":f"fixed: property={p} {h} {s[5:]}"})
json.dump(F,open(os.path.join(root,"known_findings.json"),"w"),indent=1)
