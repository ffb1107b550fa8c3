from bugs import bug,F,P,M,I,L,N,D,W

bug('C18-full','C18',[(M,'''        if interface.reserved_bandwidth > interface.capacity:
''','''        if interface.reserved_bandwidth >= interface.capacity:
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "B", 100, "d")], [("A", "B", "l1")])
quiet(model.update_simulation)
assert model.get_rsvp_lsp("A", "B", "l1").reserved_bandwidth == 100
''','an interface whose whole capacity is reserved','the simulation of a valid model is refused')

bug('C29-same-name','C29',[(M,'''        for demand in demand_iter:
            print("demand._key is", demand._key)
''','''        for demand in sorted({dmd.name: dmd for dmd in demand_iter}.values(), key=lambda dmd: dmd.name):
            print("demand._key is", demand._key)
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "B", 4, "d"), ("B", "A", 4, "d")])
quiet(model.update_simulation)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    model.display_demand_paths()
assert out.getvalue().count("demand._key") == 2
''','demands of the same name between different nodes','only one of them is displayed')

bug('C30-case','C30',[(M,'''            if demand.source_node_object.name == source_node_name
''','''            if demand.source_node_object.name.lower() == source_node_name.lower()
''')],'''
model = net(FlexModel, [("a", "A", 10, 100)], [("A", "a", 4, "d"), ("a", "A", 4, "e")])
assert [d.name for d in model.get_demand_objects_source_node("A")] == ["d"]
''','nodes whose names differ only in case','demands of the other node are listed')

bug('C08-give-up','C08',[(M,'''            lsp = lsp.find_rsvp_path_w_bw(setup_bandwidth_optimized, input_model)
''','''            lsp = lsp.find_rsvp_path_w_bw(setup_bandwidth_optimized, input_model)
            if lsp.reserved_bandwidth == lsp_res_bw_before:
                break
''')],'''
found = 0
for cap in (8, 30):
    for i in range(8):
        ckts = [("A", "B", 1, 7), ("A", "C", 1, 9), ("C", "B", 1, 9), ("A", "D", 2, 6), ("D", "B", 2, 6)]
        lsps = [("A", "B", "l%d%s" % (k, "x" * i)) for k in range(4)]
        model = net(FlexModel, ckts, [("A", "B", 24, "d")], lsps)
        quiet(model.update_simulation)
        routed = [x for x in model.rsvp_lsp_objects if x.path != "Unrouted"]
        assert len(routed) == 3, routed
        for lsp in routed:
            room = min(x.capacity for x in lsp.path["interfaces"])
            assert lsp.reserved_bandwidth == (8 if room >= 8 else 6), (lsp, lsp.reserved_bandwidth)
''','an LSP of a partly routed group that cannot re-signal before one that can','LSPs after the first that cannot re-signal keep too small a reservation')

bug('C07-round-needed','C07',[(F,'''                needed_bw=lsp.setup_bandwidth,
''','''                needed_bw=round(lsp.setup_bandwidth, 1),
''')],'''
model = net(FlexModel, [("A", "B", 1, 9.9), ("A", "C", 1, 20), ("C", "B", 1, 20)], [("A", "B", 9.94, "d")], [("A", "B", "l")])
quiet(model.update_simulation)
assert model.get_rsvp_lsp("A", "B", "l").path != "Unrouted"
''','a setup bandwidth that is rounded down to just what the best path has','the LSP is unrouted instead of taking the next path')
