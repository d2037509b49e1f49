"""
Binding between the abstract values of spec/Wire.tla and the objects of ccnpy: build(abstract) and project(object),
both through the public interface only.
"""
import array, datetime
from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.FinalChunkId import FinalChunkId
from ccnpy.core.HashValue import HashValue
from ccnpy.core.KeyId import KeyId
from ccnpy.core.KeyLink import KeyLink
from ccnpy.core.Link import Link
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet
from ccnpy.core.Payload import Payload
from ccnpy.core.PayloadType import PayloadType
from ccnpy.core.SignatureTime import SignatureTime
from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c, ValidationAlg_RsaSha256
from ccnpy.core.ValidationPayload import ValidationPayload
from ccnpy.flic.tlvs.AeadCtx import AeadCtx
from ccnpy.flic.tlvs.AeadMode import AeadMode
from ccnpy.flic.tlvs.AuthTag import AuthTag
from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
from ccnpy.flic.tlvs.GroupData import GroupData
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.KdfAlg import KdfAlg
from ccnpy.flic.tlvs.KdfData import KdfData
from ccnpy.flic.tlvs.KdfInfo import KdfInfo
from ccnpy.flic.tlvs.KeyNumber import KeyNumber
from ccnpy.flic.tlvs.LeafDigest import LeafDigest
from ccnpy.flic.tlvs.LeafSize import LeafSize
from ccnpy.flic.tlvs.Locator import Locator
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.NcDef import NcDef
from ccnpy.flic.tlvs.NcId import NcId
from ccnpy.flic.tlvs.NcSchema import HashSchema, PrefixSchema, SegmentedSchema
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.NodeData import NodeData
from ccnpy.flic.tlvs.Nonce import Nonce
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.ProtocolFlags import ProtocolFlags
from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
from ccnpy.flic.tlvs.SubtreeDigest import SubtreeDigest
from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
from ccnpy.flic.tlvs.Vendor import Vendor
from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
from ccnpy.flic.aeadctx.AeadData import AeadData


# ---- numbers and bytes ---------------------------------------------------
def num(n):
    """shortest big-endian bytes"""
    n = int(n)
    return list(n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big'))


def denum(b):
    return int.from_bytes(bytes(b), 'big')


def by(x):
    """list of byte values of whatever octets object the code uses"""
    return [int(v) for v in x]


def arr(x):
    return array.array('B', x)


def opt(f, x):
    return [] if x is None else [f(x)]


def deopt(f, x):
    return None if not x else f(x[0])


# ---- build: abstract -> ccnpy --------------------------------------------
def b_name(n):
    return Name([NameComponent(c['t'], bytes(c['v'])) for c in n])


def b_hash(h):
    return HashValue(h['a'], arr(h['v']))


def b_link(l):
    return Link(name=deopt(b_name, l['name']), keyid=deopt(b_hash, l['keyid']), digest=deopt(b_hash, l['digest']))


def b_co(c):
    return ContentObject(name=deopt(b_name, c['name']),
                         expiry_time=deopt(lambda n: b_time(ExpiryTime, n), c['exp']),
                         payload_type=deopt(PayloadType, c['pt']),
                         payload=deopt(lambda p: Payload(list(p)), c['pl']),
                         final_chunk_id=deopt(lambda n: FinalChunkId(denum(n)), c['fc']))


def b_time(cls, n):
    return cls(denum(n) / 1000)


def b_packet(p):
    co = b_co(p['co'])
    if not p['val']:
        return Packet.create_content_object(co)
    v = p['val'][0]
    if v['k'] == 'crc':
        alg = ValidationAlg_Crc32c()
    else:
        alg = ValidationAlg_RsaSha256(keyid=b_hash(v['keyid'][0]), signature_time=b_time(SignatureTime, v['time'][0]))
    return Packet.create_signed_content_object(co, alg, ValidationPayload(arr(v['sig'])))


def b_locs(ls):
    return Locators([Locator(b_link(l)) for l in ls])


def b_schema(s):
    loc = deopt(b_locs, s['loc'])
    flags = deopt(lambda f: ProtocolFlags(list(f)), s['flags'])
    if s['k'] == 'hash':
        return HashSchema(locators=loc, flags=flags)
    if s['k'] == 'prefix':
        return PrefixSchema(name=b_name(s['name'][0]), locators=loc, flags=flags)
    return SegmentedSchema(name=b_name(s['name'][0]), suffix_type=SuffixComponentType(denum(s['sfx'][0])),
                           locators=loc, flags=flags)


def b_ncdef(d):
    return NcDef(NcId(denum(d['id'])), b_schema(d['s']))


def b_nodedata(d):
    return NodeData(subtree_size=deopt(lambda n: SubtreeSize(denum(n)), d['sts']),
                    subtree_digest=deopt(lambda h: SubtreeDigest(b_hash(h)), d['std']),
                    locators=deopt(b_locs, d['loc']),
                    vendors=[Vendor(denum(v['pen']), list(v['pl'])) for v in d['vend']] or None,
                    nc_defs=[b_ncdef(x) for x in d['ncs']] or None)


def b_groupdata(g):
    return GroupData(subtree_size=deopt(lambda n: SubtreeSize(denum(n)), g['sts']),
                     subtree_digest=deopt(lambda h: SubtreeDigest(b_hash(h)), g['std']),
                     leaf_size=deopt(lambda n: LeafSize(denum(n)), g['ls']),
                     leaf_digest=deopt(lambda h: LeafDigest(b_hash(h)), g['ld']),
                     nc_id=deopt(lambda n: NcId(denum(n)), g['nc']),
                     start_segment_id=deopt(lambda n: StartSegmentId(denum(n)), g['ssid']))


def b_hashgroup(h):
    return HashGroup(group_data=deopt(b_groupdata, h['gd']), pointers=Pointers([b_hash(p) for p in h['ptrs']]))


def b_node(n):
    nd = deopt(b_nodedata, n['nd'])
    hgs = [b_hashgroup(h) for h in n['hgs']]
    if n['pad']:
        return Node(nd, hgs, pad_length=len(Node(nd, hgs)) + 4 + n['pad'][0])
    return Node(nd, hgs)


def b_ctx(c):
    kdf = deopt(lambda k: KdfData(KdfAlg(denum(k['alg'])), deopt(lambda i: KdfInfo(list(i)), k['info'])), c['kdf'])
    data = AeadData(key_number=KeyNumber(denum(c['kn'])), nonce=Nonce(list(c['nonce'])), mode=AeadMode(denum(c['mode'])),
                    kdf_data=kdf)
    if c['k'] == 'aead':
        return AeadCtx(data)
    w = deopt(lambda w: RsaOaepWrapper(key_id=KeyId(b_hash(w['keyid'])), hash_alg=HashAlg(denum(w['alg'])),
                                       wrapped_key=WrappedKey(arr(w['wk'])),
                                       key_link=deopt(lambda l: KeyLink(b_link(l)), w['link'])), c['wrap'])
    return RsaOaepCtx(data, w)


def b_manifest(m):
    node = b_node(m['node'][0]) if m['node'] else EncryptedNode(list(m['enc'][0]))
    return Manifest(security_ctx=deopt(b_ctx, m['ctx']), node=node,
                    auth_tag=deopt(lambda t: AuthTag(list(t)), m['tag']))


# ---- project: ccnpy -> abstract ------------------------------------------
def p_name(n):
    return [dict(t=int(n.component(i).type()), v=by(n.component(i).value())) for i in range(n.count())]


def p_hash(h):
    return dict(a=int(h.hash_algorithm()), v=by(h.value()))


def p_link(l):
    return dict(name=opt(p_name, l.name()), keyid=opt(p_hash, l.keyid()), digest=opt(p_hash, l.digest()))


def p_octets(o):
    return by(o.value())


def p_fc(f):
    return num(denum(by(f.serialize())[4:]))


def p_ptype(t):
    return int(by(t.serialize())[4])


def p_co(c):
    return dict(name=opt(p_name, c.name()), exp=opt(lambda e: num(e.milliseconds()), c.expiry_time()),
                pt=opt(p_ptype, c.payload_type()), pl=opt(p_octets, c.payload()), fc=opt(p_fc, c.final_chunk_id()))


def p_val(p):
    a = p.validation_alg()
    sig = by(p.validation_payload().payload())
    if isinstance(a, ValidationAlg_RsaSha256):
        return dict(k='rsa', keyid=[p_hash(a.keyid())], time=[num(a.signature_time().milliseconds())], sig=sig)
    return dict(k='crc', keyid=[], time=[], sig=sig)


def p_packet(p):
    return dict(co=p_co(p.body()), val=[] if p.validation_alg() is None else [p_val(p)])


def p_locs(ls):
    return [p_link(Link.deserialize(l.serialize()[4:])) for l in ls]


def p_schema(s):
    k = 'hash' if isinstance(s, HashSchema) else 'prefix' if isinstance(s, PrefixSchema) else 'seg'
    return dict(k=k, name=[] if k == 'hash' else opt(p_name, s.name()),
                sfx=[] if k != 'seg' else opt(lambda x: num(x.value()), s.suffix_type()),
                loc=opt(p_locs, s.locators()), flags=opt(p_octets, s.flags()))


def p_ncdef(d):
    return dict(id=num(d.nc_id().value()), s=p_schema(d.schema()))


def p_int(x):
    return num(x.value())


def p_nodedata(d):
    return dict(sts=opt(p_int, d.subtree_size()), std=opt(lambda x: p_hash(x.digest()), d.subtree_digest()),
                loc=opt(p_locs, d.locators()), ncs=[p_ncdef(x) for x in (d.nc_defs() or [])],
                vend=[dict(pen=list(int(v.pen()).to_bytes(3, 'big')), pl=by(v.payload())) for v in (d.vendor_tags() or [])])


def p_groupdata(g):
    return dict(sts=opt(p_int, g.subtree_size()), std=opt(lambda x: p_hash(x.digest()), g.subtree_digest()),
                ls=opt(p_int, g.leaf_size()), ld=opt(lambda x: p_hash(x.digest()), g.leaf_digest()),
                nc=opt(p_int, g.nc_id()), ssid=opt(p_int, g.start_segment_id()))


def p_ptrs(ps):
    return [p_hash(ps[i]) for i in range(len(ps))]


def p_hashgroup(h):
    return dict(gd=opt(p_groupdata, h.group_data()), ptrs=p_ptrs(h.pointers()))


def p_node(n):
    return dict(nd=opt(p_nodedata, n.node_data()), hgs=[p_hashgroup(h) for h in n.hash_groups()], pad=[])


def p_keylink(l):
    return p_link(Link.deserialize(l.serialize()[4:]))


def p_kdf(k):
    return dict(alg=p_int(k.kdf_alg()), info=opt(p_octets, k.kdf_info()))


def p_wrap(w):
    alg = 1 if w.is_sha_256() else 2 if w.is_sha_512() else 0
    return dict(keyid=p_hash(w.key_id().digest()), link=opt(p_keylink, w.key_link()), alg=num(alg),
                wk=by(w.wrapped_key().serialize())[4:])


def p_mode(m):
    """the mode that the getters tell of"""
    is_ = [m.is_aes_gcm_128(), m.is_aes_gcm_256(), m.is_aes_ccm_128(), m.is_aes_ccm_256()]
    if sum(map(bool, is_)) != 1:
        return p_int(m)
    k = is_.index(True)
    return num(k + 1 if m.key_bits() == (128, 256, 128, 256)[k] else 0)


def p_ctx(c):
    d = c.aead_data()
    oaep = isinstance(c, RsaOaepCtx)
    return dict(k='oaep' if oaep else 'aead', kn=p_int(d.key_number()), nonce=p_octets(d.nonce()), mode=p_mode(d.mode()),
                kdf=opt(p_kdf, d.kdf_data()), wrap=opt(p_wrap, c.rsa_oaep_wrapper()) if oaep else [])


def p_manifest(m):
    enc = isinstance(m.node(), EncryptedNode)
    return dict(ctx=opt(p_ctx, m.security_ctx()), node=[] if enc else [p_node(m.node())],
                enc=[p_octets(m.node())] if enc else [], tag=opt(p_octets, m.auth_tag()))


def p_walk(m):
    return [dict(nc=num(v.nc_id), seg=[] if v.segment_id is None else [int(v.segment_id)], h=p_hash(v.hash_value))
            for v in m.hash_values()]


BUILD = dict(packet=b_packet, manifest=b_manifest)
PROJECT = dict(packet=p_packet, manifest=p_manifest)
PARSE = dict(packet=lambda b: Packet.deserialize(arr(b)), manifest=lambda b: Manifest.deserialize(arr(b)))
