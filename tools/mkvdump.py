#!/usr/bin/env python3
"""Debugging aid: prints the element tree of a Matroska file."""
import sys
M={0x1A45DFA3:'EBML',0x18538067:'Segment',0x114D9B74:'SeekHead',0x4DBB:'Seek',0x1549A966:'Info',0x1654AE6B:'Tracks',0x1F43B675:'Cluster',0x1C53BB6B:'Cues',0x1254C367:'Tags',0x1941A469:'Attachments',0x1043A770:'Chapters',0xBB:'CuePoint',0xB7:'CueTrackPos',0xA0:'BlockGroup',0x7373:'Tag',0x67C8:'SimpleTag',0xAE:'TrackEntry',0x61A7:'AttachedFile'}
def num(b,i,keep):
    f=b[i]
    if f==0: return None
    l=8-f.bit_length()+1
    v=int.from_bytes(b[i:i+l],'big')
    if not keep: v&=(1<<(7*l))-1
    return v,l
def dump(b,i,end,d,depth):
    while i<end:
        a=num(b,i,True)
        if not a: print(' '*d+'?? at',i); return
        s=num(b,i+a[1],False)
        if not s: print(' '*d+'?? size at',i); return
        o=i+a[1]+s[1]
        print(' '*d+'%d-%d %x %s hdr %d size %d%s'%(i,o+s[0],a[0],M.get(a[0],''),a[1]+s[1],s[0],' OVER' if o+s[0]>end else ''), b[o:o+12].hex() if a[0] not in M else '')
        if a[0] in M and d<depth: dump(b,o,min(end,o+s[0]),d+1,depth)
        i=o+s[0]
b=open(sys.argv[1],'rb').read(); print(len(b)); dump(b,0,len(b),0,int(sys.argv[2]) if len(sys.argv)>2 else 2)
