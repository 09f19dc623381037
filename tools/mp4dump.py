import sys,struct
def walk(b,o,e,d=0):
    while o+8<=e:
        s,t=struct.unpack('>I4s',b[o:o+8]); h=8
        if s==1: s=struct.unpack('>Q',b[o+8:o+16])[0]; h=16
        if s==0: s=e-o
        print('  '*d,o,t,s)
        if s<h: break
        if t in (b'moov',b'trak',b'mdia',b'minf',b'stbl',b'udta',b'ilst',b'dinf',b'mvex',b'moof',b'traf') or (d and t[:1]==b'\xa9'): walk(b,o+h,o+s,d+1)
        elif t==b'meta': walk(b,o+h+4,o+s,d+1)
        o+=s
b=open(sys.argv[1],'rb').read(); walk(b,0,len(b))
