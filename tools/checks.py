# property -> scenario families (spec/*Gen.tla) and bounded models (spec/*MC.tla)
FAMS = {}  # family -> generator module
for m, l in dict(Alg="ptdec encpt scdec sc fe pt", Poly="cmp poly lag commit cbor",
                 Proto="deal pub priv enc ctx pop trans resh mult fit recon comp cver fresh sign shver sigver rho derive next quo clone",
                 Hash="xmd seed h2c scrnd ro", Walk="walk", Zk="zkc zks", Mal="mal", Conc="conc").items():
    for f in l.split(): FAMS[f] = m
CHECKS = {
 "C01": dict(fams=["sign","walk"], mc=["SignMC"]),
 "C02": dict(fams=["shver"], mc=[("SignMC","SignShMC")]),
 "C03": dict(fams=["sigver"], mc=["SignMC"]),
 "C04": dict(fams=["resh","mult","recon","sign","quo","walk"], mc=["ChainMC"]),
 "C05": dict(fams=["rho"]),
 "C06": dict(fams=["trans","walk"], mc=[("IdkgMC","IdkgMC_rand"), "ChainMC"]),
 "C07": dict(fams=["resh","walk"], mc=[("IdkgMC","IdkgMC_unm"), "ChainMC"]),
 "C08": dict(fams=["mult","walk"], mc=[("IdkgMC","IdkgMC_mul"), "ChainMC"]),
 "C09": dict(fams=["fit"], mc=["ChainMC"]),
 "C10": dict(fams=["deal"], mc=[("IdkgMC","IdkgMC_msk"), ("IdkgMC","IdkgMC_rand")]),
 "C11": dict(fams=["pub"], mc=[("IdkgMC","IdkgMC_msk"), ("IdkgMC","IdkgMC_flaw_req","fails")]),
 "C12": dict(fams=["priv"], mc=[("IdkgMC","IdkgMC_unm")]),
 "C13": dict(fams=["fresh"]),
 "C14": dict(fams=["comp","walk"], mc=[("IdkgMC","IdkgMC_live"), ("IdkgMC","IdkgMC_unm")]),
 "C15": dict(fams=["cver","walk"], mc=[("IdkgMC","IdkgMC_msk"), ("IdkgMC","IdkgMC_flaw_comp","fails")]),
 "C16": dict(fams=["recon","walk"], mc=[("IdkgMC","IdkgMC_unm"), "ChainMC"]),
 "C17": dict(fams=["enc"]),
 "C18": dict(fams=["ctx"]),
 "C19": dict(fams=["pop"]),
 "C20": dict(fams=["zkc"], mc=[("ZkMC","ZkMC_dleq"), ("ZkMC","ZkMC_eq"), ("ZkMC","ZkMC_prod")]),
 "C21": dict(fams=["zks"], mc=[("ZkMC","ZkMC_dleq"), ("ZkMC","ZkMC_eq"), ("ZkMC","ZkMC_prod")]),
 "C22": dict(fams=["cmp","clone"]),
 "C23": dict(fams=["ro"], mc=["FrameMC", ("FrameMC","FrameMC_long")]),
 "C24": dict(fams=["xmd", "seed"], mc=["VectorsMC"]),
 "C25": dict(fams=["h2c", "scrnd"], mc=["VectorsMC"]),
 "C26": dict(fams=["poly"], mc=["ShamirMC"]),
 "C27": dict(fams=["lag"], mc=["ShamirMC"]),
 "C28": dict(fams=["commit"], mc=["ShamirMC"]),
 "C29": dict(fams=["cbor"]),
 "C30": dict(fams=["ptdec"], mc=["VectorsMC"]),
 "C31": dict(fams=["scdec"]),
 "C32": dict(fams=["sc", "fe"], mc=["VectorsMC"]),
 "C33": dict(fams=["pt"], mc=["VectorsMC"]),
 "C34": dict(fams=["derive"], mc=["VectorsMC"]),
 "C35": dict(fams=["next"], mc=["NextMC"]),
 "C36": dict(fams="deal pub priv enc ctx pop trans resh mult fit recon comp cver fresh sign shver sigver rho derive next walk zkc zks cmp poly lag commit cbor ptdec encpt scdec xmd seed h2c scrnd".split(), pure=True, mc=[("PurityMC","PurityMC_pure"), ("PurityMC","PurityMC_inplace","fails"), ("PurityMC","PurityMC_keyless","fails")]),
 "C37": dict(fams="lag.par poly.par commit.par cmp.par cbor.par sc.par fe.par pt.par ptdec.par encpt.par scdec.par xmd.par seed.par h2c.par scrnd.par zkc.par zks.par conc".split(), race=True, mc=[("PurityMC","PurityMC_pure"), ("PurityMC","PurityMC_locked"), ("PurityMC","PurityMC_restore","fails"), ("PurityMC","PurityMC_cache","fails")]),
 "C38": dict(fams=["mal"]),
 "C39": dict(fams=["encpt"]),
}
