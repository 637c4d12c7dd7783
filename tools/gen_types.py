# writes harness/checks/types_gen.go: named struct types (reflect cannot make named ones)
import random
r=random.Random(20240607)
nums="int8 uint8 int16 uint16 int32 uint32 int64 uint64 float32 float64".split()
pre=["lgxtypes.TIMER","lgxtypes.COUNTER","lgxtypes.CONTROL","lgxtypes.STRING"]
out=["package checks","","// generated by tools/gen_types.py","","import (","\t\"reflect\"","","\t\"github.com/danomagnum/gologix/lgxtypes\"",")",""]
names=[]
def letters(n): return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") for _ in range(n))
for i in range(140):
    name="G%d%s"%(i,letters(r.choice([0,1,2,5,10,30])))
    fs=[]
    for k in range(r.choice([1,1,2,3,5,8,13])):
        c=r.randrange(10)
        if c<3: fs+= ["bool"]*r.choice([1,1,2,7,8,9,16,17])
        elif c<5: fs.append("[%d]%s"%(r.choice([1,2,3,9,10,82,100,480]),r.choice(nums)))
        elif c==5 and names: fs.append(r.choice(names[-25:]))
        elif c==6 and names: fs.append("[%d]%s"%(r.choice([1,2,5,12]),r.choice(names[-25:])))
        elif c==7: fs.append(r.choice(pre))
        else: fs.append(r.choice(nums))
    out.append("type %s struct {"%name)
    for k,f in enumerate(fs): out.append("\tF%d %s"%(k,f))
    out+=["}",""]
    # keep nesting depth bounded
    if not any("G" in f for f in fs) or r.random()<.35: names.append(name)
    out_names=globals().setdefault("alln",[]); out_names.append(name)
out.append("var genTypes = []reflect.Type{")
for n in alln: out.append("\treflect.TypeOf(%s{}),"%n)
out.append("}")
print("\n".join(out))
