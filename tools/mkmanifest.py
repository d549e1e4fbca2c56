import json
T={
"C01":"stateful property-based testing of simulated clusters, agreement invariant",
"C02":"stateful property-based testing of simulated clusters, monotonicity invariants over the history",
"C03":"stateful property-based testing of simulated clusters, decided entries compared with the appended ones",
"C04":"stateful property-based testing of simulated clusters, quorum invariant over all storages",
"C05":"stateful property-based testing with generated crash points, storage checked at every message sent",
"C06":"stateful property-based testing: generated fault histories, then a bounded fair schedule",
"C07":"stateful property-based testing: generated histories and connectivity graphs, then a bounded fair schedule",
"C08":"stateful property-based testing with election expectations inside generated histories",
"C09":"stateful property-based testing with reconfigurations, model of the stop entry",
"C10":"stateful property-based testing with trims, model of the compacted log",
"C11":"stateful property-based testing with an order-sensitive snapshot oracle",
"C12":"stateful property-based testing of reads against a reference model of the log",
"C13":"stateful property-based testing of fault-free clusters against the appended sequence",
"C14":"model-based property testing of the storage against an abstract log",
"C15":"model-based property testing of RocksDB storage with reopen and kill points",
"C16":"fault injection at every storage write of generated histories, recovery oracle",
"C17":"exhaustive and random generated configurations against a reference predicate",
"C18":"model-based property testing of the caches, decode(encode(x)) = x",
"C19":"stateful property-based testing of UniCache clusters with all invariants",
"C20":"differential property-based testing of message transports",
"C21":"stateful property-based testing of lossy clusters, log matching invariant",
"C22":"stateful property-based testing, exposed state compared with a monitor",
"C23":"stateful property-based testing, what each tick sends compared with a timer model",
"C24":"property-based testing of the derive macros: generated type definitions, compiled, against reference coders",
"C25":"property-based testing of the dashboard: generated states drawn on a pseudo-terminal, the screen read back",
"C26":"differential property-based testing: generated histories with and without logging, log files against captured records",
"C27":"","C28":"",
}
N="Explores generated cases only; establishes no absence. "
L={
"C16":"Every storage write of every generated history is a fault point (three modes each); histories themselves are sampled.",
"C17":"Small configurations are enumerated completely, the rest is sampled. "}
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
checks=[]
for i in ids:
    assert T[i],i
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
      technique=T[i],level="fault_enumeration" if i=="C16" else "exploration",level_note=L.get(i,N.strip())))
json.dump(dict(version=1,setup_cmd="./check.sh build",checks=checks,not_applicable=[]),open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks))
