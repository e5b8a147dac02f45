import json,subprocess
log=dict((l.split(' ',1)[1],l.split(' ',1)[0]) for l in subprocess.run(['git','-C','/repo','log','--format=%h %s','e1f4b8e..HEAD'],stdout=-1,text=True).stdout.splitlines() if ' fix:' in l)
M=[("combine bounds of a negated and/or by De Morgan","P01","a negated and/or was bounded by the wrong union/intersection, so searches missed true expressions"),
("decide a negated and/or from undefined attributes by De Morgan","P03","an undefined attribute under a negated and/or decided the whole expression wrongly"),
("a frequency cap is false without 'now' also when there are no caps","P15","an empty cap list without a current time was true alone and false when decided early"),
("move the right subscription when several share an id","P02","splitting a leaf with repeated ids moved another subscription of the same id: matches lost, reported twice, use after free"),
("do not split a float domain that has no middle","P21","endless recursion on a float domain whose ends are adjacent"),
("compute the size of a domain without overflow","P12","the size of a wide integer domain overflowed"),
("keep leaf capacity and partition size in 64 bits","P25","a leaf capacity above 255 was cut to 8 bits (0 splits for ever)"),
("remove repeated elements from the lists of an expression","P11","'all of' with a repeated element never matched"),
("keep the unknown strings of an event apart","P06","different unseen strings of one event got one id; a reused event object kept ids that a later insertion gave to other strings"),
("keep frequency cap namespaces apart when inserting one expression at a time","P15","two namespaces inserted directly were not told apart"),
("refuse ill-typed expressions inserted directly","P09","an ill-typed expression inserted directly aborted the process at the next search"),
("check the operands of functions and of set expressions","P09","functions and set expressions on attributes of unsuitable types were accepted and aborted later"),
("count the distinct new strings of a whole expression against the capacity","P14","every comparison was checked alone, so an expression could exceed the capacity, and repeated strings were counted twice"),
("initialise the map of strings when it is created","P09","uninitialised map used when a string was refused before any was stored"),
("enforce the capacity of integer enums","P14","the declared number of distinct integer-enum values was never enforced"),
("release an expression refused for want of a constant","P19","leak"),
("a refused preparation takes no strings or enums","P09","betree_make_sub took ids for the strings of an expression it then refused"),
("validate an expression before adjusting boundaries with it","P09","betree_change_boundaries with an ill-typed or undeclared attribute aborted or changed boundaries"),
("refuse an expression with an unknown character instead of truncating it","P09","an unknown character ended the text silently: 'b $ and c' was stored as 'b'"),
("read 'not' before an attribute whose name starts with 'in'","P10","'not in_stock' was read as 'not in' followed by '_stock'"),
("release the variables of a refused event","P19","leak"),
("an event that lacks a required attribute has no match to report","P05","betree_exists answered true for an event a search refuses"),
("release what was parsed of an invalid expression","P19","leak"),
("bounds of comparisons with the largest integer do not overflow","P12","i < INT64_MIN+... / i > INT64_MAX bounds overflowed"),
("a negative frequency window is a non-positive window","P15","a negative window was read as a huge unsigned one"),
("time differences do not overflow","P18","signed overflow for extreme values of now or a timestamp"),
("looking up a string does not write to the map","P20","map_get wrote to the shared tree: data race between searches"),
("parse events of several threads at the same time","P20","the event parser kept its state in globals"),
("read an integer given for a float attribute as a float","P07","\"f\": 2 for a float attribute aborted"),
("adjusting boundaries does not limit how many strings fit","P13","after betree_change_boundaries the inferred bound was taken for the declared capacity and later expressions were refused"),
("boundaries at the extreme integers do not make a domain unbounded","P13","boundaries inferred up to INT64_MIN/INT64_MAX were read as no boundary"),
("segment ages beyond 32 bits are not truncated","P16","segment_within/before cut their number of seconds to 32 bits"),
("frequency limits beyond 32 bits are not truncated","P15","within_frequency_cap cut its limit to 32 bits"),
("refuse an expression too deep for the stack","P18","a chain of some 20000 `and`s exhausted the stack"),
("the size of an enormous float domain does not overflow","P18","conversion of an enormous float domain size to an integer"),
]
F=[]
for m,p,w in M:
    h=log.pop("fix: "+m)
    F.append(dict(property=p,status="fixed",commit=h,what=w,entry="fixed: property=%s %s %s"%(p,h,w)))
assert not log,log
sig=r"^accept\|expression refused, must be accepted: s = \"second\"$"
for p in ("P09","P14"):
    F.append(dict(property=p,status="known",script="regress/known/P09+P14-ill-typed-takes-string-capacity.script",signature=sig,
      what="after the ill-typed `s = \"first\" and b = 1` is refused by betree_insert, `s = \"second\"` is wrongly refused for a string attribute of capacity 1: the refused text keeps its string (the existing test bound_tests:test_string_list_bounds relies on refused insertions registering their strings, so it is not repaired)"))
json.dump({"findings":F},open('known_findings.json','w'),indent=1)
