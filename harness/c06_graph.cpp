// C06: graphs (edge symmetry), control flow graph, call graph, expression evaluation order.
#include "ir.h"
#include "common/Graph.h"
#include "common/ControlFlowGraph.h"
#include "common/FunctionCallGraph.h"
#include "common/ExprGraph.h"
#include <memory>
#include <functional>
using namespace spvgentwo;
using namespace ir;
using track::El;

namespace
{
	using G = Graph<int, El>;
	struct MEdge { int src, dst, data; };

	struct GraphWorld
	{
		track::Allocator al; std::unique_ptr<G> g; std::vector<int> order; std::map<int, G::NodeType*> node; std::vector<MEdge> edges; int nextNode = 0, nextData = 1;

		G::NodeType* at(unsigned i) { return node[order[i]]; }
		void verify(const char* what)
		{
			MC_CHECK(g->size() == order.size() && g->empty() == order.empty(), "node-count", "after %s: %zu nodes, expected %zu", what, size_t(g->size()), order.size());
			size_t k = 0;
			for (auto& n : *g) { MC_CHECK(k < order.size() && n.data() == order[k] && &n == node[order[k]], "node-order", "after %s: node %zu changed or moved", what, k); ++k; }
			MC_CHECK(k == order.size(), "node-count", "after %s: iteration visits %zu nodes", what, k);
			if (!order.empty()) MC_CHECK(g->front().data() == order.front() && g->back().data() == order.back(), "front-back", "after %s: front/back name the wrong node", what);
			for (int id : order)
			{
				std::vector<MEdge> out, in; for (auto& e : edges) { if (e.src == id) out.push_back(e); if (e.dst == id) in.push_back(e); }
				size_t i = 0; auto& n = *node[id];
				for (auto& e : n.outputs()) { MC_CHECK(i < out.size() && e.pTarget == node[out[i].dst] && e.data.v == out[i].data, "outputs", "after %s: output %zu of node %d is wrong", what, i, id); ++i; }
				MC_CHECK(i == out.size() && n.outputs().size() == i, "outputs", "after %s: node %d has %zu outputs, expected %zu", what, id, i, out.size());
				i = 0;
				for (auto& e : n.inputs()) { MC_CHECK(i < in.size() && e.pTarget == node[in[i].src] && e.data.v == in[i].data, "inputs", "after %s: input %zu of node %d is wrong", what, i, id); ++i; }
				MC_CHECK(i == in.size() && n.inputs().size() == i, "inputs", "after %s: node %d has %zu inputs, expected %zu", what, id, i, in.size());
			}
		}
		uint64_t key() { uint64_t h = order.size(); for (auto& e : edges) h = mc::mix(h, (std::find(order.begin(), order.end(), e.src) - order.begin()) * 16 + (std::find(order.begin(), order.end(), e.dst) - order.begin())); return h; }
		void run(unsigned depth)
		{
			const int base = El::alive(); const unsigned mode = mc::choose(2, "graph"); g.reset(new G(&al));
			for (unsigned d = 0; d < depth && !mc::aborting(); ++d)
			{
				const unsigned n = unsigned(order.size()); const unsigned nn = n * n;
				const unsigned c = mc::choose(1 + 2 * nn + n + 3, "operation"); char what[64];
				if (c < nn) { const unsigned i = c / n, j = c % n; if (edges.size() >= 6) return; snprintf(what, sizeof what, "connect(%u->%u)", i, j); mc::op("%s", what); if (mode) { El e(nextData); at(i)->connect(at(j), e); } else at(i)->connect(at(j), El(nextData)); edges.push_back({ order[i], order[j], nextData++ }); }
				else if (c < 2 * nn)
				{
					const unsigned i = (c - nn) / n, j = (c - nn) % n; snprintf(what, sizeof what, "disconnect(%u->%u)", i, j); mc::op("%s", what);
					at(i)->disconnect(at(j));
					// one edge (the oldest) or all parallel edges may go: both are a consistent reading of the interface
					size_t left = 0; for (auto& e : at(i)->outputs()) left += e.pTarget == at(j);
					size_t before = 0; for (auto& e : edges) before += e.src == order[i] && e.dst == order[j];
					MC_CHECK(before == 0 ? left == 0 : left == before - 1 || left == 0, "disconnect", "disconnect left %zu of %zu edges", left, before);
					for (size_t k = 0; k < edges.size();) if (edges[k].src == order[i] && edges[k].dst == order[j] && before > left) { edges.erase(edges.begin() + k); --before; } else ++k;
				}
				else if (c < 2 * nn + n)
				{
					const unsigned i = c - 2 * nn; snprintf(what, sizeof what, "erase(%u)", i); mc::op("%s", what);
					auto it = g->begin(); for (unsigned k = 0; k < i; ++k) ++it;
					auto next = g->erase(it);
					MC_CHECK(i + 1 < n ? next != nullptr && (*next).data() == order[i + 1] : next == g->end(), "erase-result", "erase returned the wrong position");
					const int id = order[i]; order.erase(order.begin() + i); node.erase(id);
					edges.erase(std::remove_if(edges.begin(), edges.end(), [&](const MEdge& e) { return e.src == id || e.dst == id; }), edges.end());
				}
				else switch (c - 2 * nn - n)
				{
				case 0: { if (n >= 4) return; snprintf(what, sizeof what, "emplace"); mc::op("emplace"); auto* p = g->emplace(nextNode); MC_CHECK(p && p->data() == nextNode, "emplace", "emplaced node"); node[nextNode] = p; order.push_back(nextNode++); break; }
				case 1: { snprintf(what, sizeof what, "move_construct"); mc::op("move_construct"); std::unique_ptr<G> o(new G(std::move(*g))); MC_CHECK(g->empty() && g->size() == 0, "moved-from", "a moved-from graph keeps nodes"); g = std::move(o); break; }
				case 2: { snprintf(what, sizeof what, "move_assign"); mc::op("move_assign"); std::unique_ptr<G> o(new G(&al)); if (n % 2) { auto* a = o->emplace(100); auto* b = o->emplace(101); a->connect(b, El(1)); b->connect(b, El(2)); } G& r = (*o = std::move(*g)); MC_CHECK(&r == o.get() && g->empty(), "moved-from", "move assignment"); g = std::move(o); break; }
				case 3: { snprintf(what, sizeof what, "clear"); mc::op("clear"); g->clear(); order.clear(); node.clear(); edges.clear(); break; }
				}
				verify(what);
				MC_CHECK(size_t(El::alive() - base) == edges.size() * 2, "edge-data", "after %s: %d edge data objects alive for %zu edges", what, El::alive() - base, edges.size());
				mc::state(key()); if (!mc::fresh(key(), depth - d - 1)) break;
			}
			char b[32]; snprintf(b, sizeof b, "%zu nodes %zu edges", order.size(), edges.size()); mc::outcome(b);
			g.reset(); MC_CHECK(El::alive() == base, "edge-data", "edge data alive after destruction"); al.expectEmpty("after destruction");
		}
	};
}

MC_SCENARIO(graph_histories, 3) { GraphWorld* w = new GraphWorld; w->run(mc::bound(7, 10)); delete w; }

// every function of <=4 blocks: each block ends in every possible terminator
MC_SCENARIO(control_flow_graph, 3)
{
	track::Allocator al; Log log;
	{
		Module m(&al, &log); Function& f = m.addFunction<void>("f", spv::FunctionControlMask::MaskNone, false); const unsigned n = 1 + mc::choose(mc::bound(3, 4), "blocks");
		Instruction* cond = m.constant(true); Instruction* sel = m.constant(1u);
		std::vector<BasicBlock*> b; for (unsigned i = 0; i < n; ++i) b.push_back(&f.addBasicBlock());
		std::vector<std::vector<unsigned>> want(n); uint64_t h = n;
		const bool byLabel = mc::flip("targets as labels");
		for (unsigned i = 0; i < n; ++i)
		{
			const unsigned t = mc::choose(4 + n + n * n + (n > 1 ? n : 0), "terminator"); h = mc::mix(h, t);
			if (n <= 2 && mc::flip("body")) (*b[i])->opNop();
			BasicBlock& bb = *b[i];
			if (t == 0) {} // not terminated yet: no edges
			else if (t == 1) bb->opReturn();
			else if (t == 2) bb->opKill();
			else if (t == 3) bb->opUnreachable();
			else if (t < 4 + n) { const unsigned j = t - 4; mc::op("branch(%u->%u)", i, j); if (byLabel) bb->makeOp(spv::Op::OpBranch, b[j]->getLabel()); else bb->opBranch(b[j]); want[i] = { j }; }
			else if (t < 4 + n + n * n) { const unsigned j = (t - 4 - n) / n, k = (t - 4 - n) % n; mc::op("branch_conditional(%u->%u,%u)", i, j, k); bb->opSelectionMerge(b[(i + 1) % n], spv::SelectionControlMask::MaskNone); if (byLabel) bb->makeOp(spv::Op::OpBranchConditional, cond, b[j]->getLabel(), b[k]->getLabel()); else if (j == k) bb->opBranchConditional(cond, b[j], b[k]); else bb->opBranchConditional(cond, b[j], b[k], 3u, 1u); want[i] = { j, k }; }
			else { const unsigned j = t - 4 - n - n * n; mc::op("switch(%u->%u,...)", i, j); want[i] = { j, (j + 1) % n, j }; Instruction* s = bb->makeOp(spv::Op::OpSwitch, sel, b[j], literal_t{ 7u }, b[(j + 1) % n], literal_t{ 9u }, b[j]); (void)s; }
		}
		mc::state(mc::mix(h, byLabel));
		ControlFlowGraph<> cfg(f, mc::flip("own allocator") ? &al : nullptr);
		MC_CHECK(cfg.size() == n, "cfg-nodes", "control flow graph has %zu nodes for %u blocks", size_t(cfg.size()), n);
		std::map<const BasicBlock*, const ControlFlowGraph<>::NodeType*> nodes;
		for (auto& nd : cfg) MC_CHECK(nodes.emplace(nd.data(), &nd).second, "cfg-nodes", "two nodes for one block");
		std::vector<std::vector<unsigned>> in(n);
		auto index = [&](const BasicBlock* p) { for (unsigned i = 0; i < n; ++i) if (b[i] == p) return i; return 99u; };
		for (unsigned i = 0; i < n; ++i)
		{
			MC_CHECK(nodes.count(b[i]), "cfg-nodes", "block %u has no node", i);
			std::vector<unsigned> got; for (auto& e : nodes[b[i]]->outputs()) got.push_back(index(e.pTarget->data()));
			auto a = got, w = want[i]; std::sort(a.begin(), a.end()); std::sort(w.begin(), w.end());
			auto s = w; s.erase(std::unique(s.begin(), s.end()), s.end());
			MC_CHECK(a == w || a == s, "cfg-edges", "block %u has %zu outgoing edges, terminator names %zu targets", i, got.size(), want[i].size());
			for (unsigned j : got) in[j].push_back(i);
		}
		for (unsigned i = 0; i < n; ++i) { std::vector<unsigned> got; for (auto& e : nodes[b[i]]->inputs()) got.push_back(index(e.pTarget->data())); auto w = in[i]; std::sort(got.begin(), got.end()); std::sort(w.begin(), w.end()); MC_CHECK(got == w, "cfg-symmetry", "block %u: incoming edges do not mirror the outgoing edges", i); }
		char o[32]; snprintf(o, sizeof o, "%u blocks", n); mc::outcome(o);
	}
	al.expectEmpty("after destruction");
}

// every call structure over <=4 functions with <=2 calls each (incl. recursion and repeated calls)
MC_SCENARIO(call_graph, 3)
{
	track::Allocator al; Log log;
	{
		Module m(&al, &log); const unsigned n = 1 + mc::choose(4, "functions"); std::vector<Function*> f; const bool entry = n == 4 && !mc::thorough() ? true : mc::flip("entry point root");
		for (unsigned i = 0; i < n; ++i) f.push_back(i == 0 && entry ? &m.addEntryPoint<void>(spv::ExecutionModel::GLCompute, "main") : &m.addFunction<void>("f"));
		struct Call { unsigned from, to; Instruction* i; }; std::vector<Call> calls;
		for (unsigned i = 0; i < n; ++i)
		{
			const unsigned k = mc::choose(3, "calls");
			for (unsigned q = 0; q < k; ++q)
			{
				unsigned j; if (n == 4 && !mc::thorough() && q) { j = calls.back().to + mc::choose(n - calls.back().to, "callee"); } else j = mc::choose(n, "callee"); mc::op("call(%u->%u)", i, j);
				BasicBlock& bb = q == 0 ? f[i]->front() : f[i]->addBasicBlock(); calls.push_back({ i, j, bb->call(f[j]) });
			}
			f[i]->back().returnValue();
		}
		std::set<unsigned> reach = { 0 }; for (bool more = true; more;) { more = false; for (auto& c : calls) if (reach.count(c.from) && reach.insert(c.to).second) more = true; }
		uint64_t h = mc::mix(n, entry); for (auto& c : calls) h = mc::mix(h, c.from * 16 + c.to); mc::state(h);
		FunctionCallGraph g(*f[0]);
		MC_CHECK(g.size() == reach.size(), "callgraph-nodes", "call graph has %zu nodes, %zu functions are reachable", size_t(g.size()), reach.size());
		std::map<const Function*, const FunctionCallGraph::NodeType*> nodes; for (auto& nd : g) MC_CHECK(nodes.emplace(nd.data(), &nd).second, "callgraph-nodes", "two nodes for one function");
		for (unsigned i : reach)
		{
			MC_CHECK(nodes.count(f[i]), "callgraph-nodes", "function %u has no node", i);
			std::multiset<std::pair<const Function*, const Instruction*>> out, in, wout, win;
			for (auto& e : nodes[f[i]]->outputs()) out.insert({ e.pTarget->data(), e.data }); for (auto& e : nodes[f[i]]->inputs()) in.insert({ e.pTarget->data(), e.data });
			for (auto& c : calls) if (reach.count(c.from)) { if (c.from == i) wout.insert({ f[c.to], c.i }); if (c.to == i) win.insert({ f[c.from], c.i }); }
			MC_CHECK(out == wout, "callgraph-edges", "function %u: %zu call edges, %zu call sites", i, out.size(), wout.size());
			MC_CHECK(in == win, "callgraph-symmetry", "function %u: %zu incoming edges, %zu call sites", i, in.size(), win.size());
		}
		char o[40]; snprintf(o, sizeof o, "%zu reachable of %u", reach.size(), n); mc::outcome(o);
	}
	al.expectEmpty("after destruction");
}

namespace
{
	struct Step; std::vector<int>* g_trace; 
	struct Step
	{
		int id; int value = -1;
		void operator()(const List<Step*>& in, const List<Step*>& out)
		{
			g_trace->push_back(id); int v = id + 1; for (Step* s : in) { if (s->value < 0) mc::fail("eval-order", "node %d is evaluated before its input %d", id, s->id); v = (v * 31 + s->value) % 10007; } value = v; nOut = int(out.size());
		}
		int nOut = -1;
	};
	struct StepE
	{
		int id; int value = -1; int nOut = -1;
		template <class L> void operator()(const L& in, const L& out)
		{
			g_trace->push_back(id); int v = id + 1; for (auto& e : in) { StepE& s = e.pTarget->data().get(); if (s.value < 0) mc::fail("eval-order", "node %d is evaluated before its input %d", id, s.id); v = (v * 31 + s.value) % 10007; } value = v; nOut = int(out.size());
		}
	};
	template <class S, ExprArgs A> void expr(unsigned n)
	{
		track::Allocator al; std::vector<int> trace; g_trace = &trace;
		{
			ExprGraph<S> g(&al); std::vector<typename ExprGraph<S>::NodeType*> nodes; std::vector<std::vector<unsigned>> in(n); std::vector<unsigned> nOut(n, 0);
			for (unsigned i = 0; i < n; ++i) nodes.push_back(g.emplace(S{ int(i) }));
			uint64_t h = n;
			// nodes may be stored in either order relative to the dependencies
			const bool rev = mc::flip("reverse"); auto at = [&](unsigned i) { return rev ? n - 1 - i : i; };
			for (unsigned j = 1; j < n; ++j) for (unsigned i = 0; i < j; ++i) { const unsigned k = mc::choose(n <= 4 ? 3 : 2, "edges"); h = mc::mix(h, k); for (unsigned q = 0; q < k; ++q) { mc::op("connect(%u->%u)", at(i), at(j)); nodes[at(i)]->connect(nodes[at(j)]); in[at(j)].push_back(at(i)); ++nOut[at(i)]; } }
			const unsigned exit = mc::choose(n, "exit"); mc::state(mc::mix(h, exit * 2 + rev));
			std::set<unsigned> need = { exit }; for (bool more = true; more;) { more = false; for (unsigned i : std::set<unsigned>(need)) for (unsigned s : in[i]) if (need.insert(s).second) more = true; }
			std::function<int(unsigned)> val = [&](unsigned i) { int v = int(i) + 1; for (unsigned s : in[i]) v = (v * 31 + val(s)) % 10007; return v; };
			auto verify = [&](const std::set<unsigned>& expected, const char* what)
			{
				std::multiset<int> t(trace.begin(), trace.end()); for (unsigned i = 0; i < n; ++i) MC_CHECK(t.count(i) == expected.count(i), "eval-once", "%s: node %u evaluated %zu times, expected %zu", what, i, t.count(i), expected.count(i));
				for (unsigned i : expected) { MC_CHECK(nodes[i]->data().get().value == val(i), "eval-inputs", "%s: node %u got the wrong inputs", what, i); MC_CHECK(nodes[i]->data().get().nOut == int(nOut[i]), "eval-outputs", "%s: node %u got %d outputs", what, i, nodes[i]->data().get().nOut); }
			};
			mc::op("evaluate_recursive(%u)", exit); ExprGraph<S>::template evaluateRecursive<A>(nodes[exit]); verify(need, "first evaluation");
			trace.clear(); ExprGraph<S>::template evaluateRecursive<A>(nodes[exit]); verify({}, "repeated evaluation");
			mc::op("reset"); g.resetEvaluationState(); for (auto* x : nodes) { MC_CHECK(!x->data().evaluated(), "eval-reset", "node still marked as evaluated"); x->data().get().value = -1; }
			trace.clear(); ExprGraph<S>::template evaluateRecursive<A>(nodes[exit]); verify(need, "evaluation after reset");
			// explicit order over all nodes
			g.resetEvaluationState(); for (auto* x : nodes) x->data().get().value = -1; trace.clear();
			List<typename ExprGraph<S>::NodeType*> order(&al); std::set<unsigned> all; for (unsigned i = 0; i < n; ++i) { order.emplace_back(nodes[at(i)]); all.insert(i); }
			const bool dup = mc::flip("repeat a node"); if (dup) order.emplace_back(nodes[at(0)]);
			mc::op("evaluate_explicit"); const bool ok = ExprGraph<S>::template evaluateExplicit<A>(order);
			MC_CHECK(ok == !dup, "eval-explicit", "explicit evaluation reports %d for an order that is %sunique", int(ok), dup ? "not " : ""); verify(all, "explicit evaluation");
			char o[32]; snprintf(o, sizeof o, "%zu evaluated", need.size()); mc::outcome(o);
		}
		al.expectEmpty("after evaluation");
	}
}
MC_SCENARIO(expression_functions, 3) { expr<Step, ExprArgs::FunctionPtrLists>(1 + mc::choose(mc::bound(4, 5), "nodes")); }
MC_SCENARIO(expression_edges, 3) { expr<StepE, ExprArgs::EdgeLists>(1 + mc::choose(mc::bound(4, 5), "nodes")); }

// shapes far larger than the histories above reach
namespace
{
	const unsigned g_large[] = { 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 130 };
	// edges of the directed shape over n nodes
	std::vector<std::pair<unsigned, unsigned>> shape(unsigned kind, unsigned n)
	{
		std::vector<std::pair<unsigned, unsigned>> r;
		switch (kind)
		{
		case 0: for (unsigned i = 0; i + 1 < n; ++i) r.push_back({ i, i + 1 }); break;
		case 1: for (unsigned i = 1; i < n; ++i) r.push_back({ 0, i }); break;
		case 2: for (unsigned i = 0; i + 1 < n; ++i) r.push_back({ i, n - 1 }); break;
		case 3: for (unsigned i = 0; i + 1 < n; ++i) { r.push_back({ i, i + 1 }); if (i + 2 < n) r.push_back({ i, i + 2 }); } break;
		case 4: for (unsigned i = 0; i < n; ++i) r.push_back({ 0, 1 }); break;
		default: for (unsigned i = 0; i < n && i < 12; ++i) for (unsigned j = i + 1; j < n && j < 12; ++j) r.push_back({ i, j }); break;
		}
		return r;
	}
	template <class S, ExprArgs A> void largeExpr(unsigned kind, unsigned n)
	{
		track::Allocator al; std::vector<int> trace; g_trace = &trace;
		{
			ExprGraph<S> g(&al); std::vector<typename ExprGraph<S>::NodeType*> nodes; std::vector<std::vector<unsigned>> in(n);
			for (unsigned i = 0; i < n; ++i) nodes.push_back(g.emplace(S{ int(i) }));
			const bool rev = mc::flip("reverse"); auto at = [&](unsigned i) { return rev ? n - 1 - i : i; };
			for (auto& e : shape(kind, n)) { nodes[at(e.first)]->connect(nodes[at(e.second)]); in[at(e.second)].push_back(at(e.first)); }
			const unsigned exits[4] = { 0, 1, n / 2, n - 1 }; const unsigned exit = at(exits[mc::choose(4, "exit")]);
			std::set<unsigned> need; std::vector<unsigned> todo = { exit }; while (!todo.empty()) { const unsigned i = todo.back(); todo.pop_back(); if (need.insert(i).second) for (unsigned s : in[i]) todo.push_back(s); }
			std::vector<int> memo(n, -1); std::function<int(unsigned)> val = [&](unsigned i) { if (memo[i] >= 0) return memo[i]; int v = int(i) + 1; for (unsigned s : in[i]) v = (v * 31 + val(s)) % 10007; return memo[i] = v; };
			auto verify = [&](const std::set<unsigned>& expected, const char* what)
			{
				std::vector<unsigned> count(n, 0); for (int i : trace) ++count[i];
				for (unsigned i = 0; i < n; ++i) { MC_CHECK(count[i] == expected.count(i), "eval-once", "%s: node %u of %u evaluated %u times, expected %zu", what, i, n, count[i], expected.count(i)); if (expected.count(i)) MC_CHECK(nodes[i]->data().get().value == val(i), "eval-inputs", "%s: node %u of %u got the wrong inputs", what, i, n); }
			};
			mc::op("evaluate_recursive(%u)", exit); ExprGraph<S>::template evaluateRecursive<A>(nodes[exit]); verify(need, "first evaluation");
			trace.clear(); ExprGraph<S>::template evaluateRecursive<A>(nodes[exit]); verify({}, "repeated evaluation");
			g.resetEvaluationState(); for (auto* x : nodes) { MC_CHECK(!x->data().evaluated(), "eval-reset", "node still marked as evaluated"); x->data().get().value = -1; }
			trace.clear(); List<typename ExprGraph<S>::NodeType*> order(&al); std::set<unsigned> all; for (unsigned i = 0; i < n; ++i) { order.emplace_back(nodes[at(i)]); all.insert(i); }
			const bool ok = ExprGraph<S>::template evaluateExplicit<A>(order); MC_CHECK(ok, "eval-explicit", "explicit evaluation of %u nodes fails", n); verify(all, "explicit evaluation");
			mc::state(mc::mix(mc::mix(kind, n), exit * 2 + rev));
		}
		al.expectEmpty("after evaluation");
	}
}
MC_SCENARIO(large_graphs, 2)
{
	const unsigned kind = mc::choose(6, "shape"), n = g_large[mc::choose(16, "nodes")]; GraphWorld w; w.g.reset(new G(&w.al)); const int base = El::alive(); mc::op("build(shape %u, %u nodes)", kind, n);
	for (unsigned i = 0; i < n; ++i) { w.node[i] = w.g->emplace(int(i)); w.order.push_back(int(i)); }
	for (auto& e : shape(kind, n)) { w.at(e.first)->connect(w.at(e.second), w.nextData); w.edges.push_back({ int(e.first), int(e.second), w.nextData++ }); }
	w.verify("building");
	for (unsigned d = 0; d < mc::bound(2, 3); ++d)
	{
		const unsigned c = mc::choose(6, "operation"), m = unsigned(w.order.size()); if (m == 0) break;
		if (c < 4)
		{
			const unsigned at[4] = { 0, 1 % m, m / 2, m - 1 }; const unsigned i = at[c]; mc::op("erase(%u)", i);
			auto it = w.g->begin(); for (unsigned k = 0; k < i; ++k) ++it; w.g->erase(it);
			const int id = w.order[i]; w.order.erase(w.order.begin() + i); w.node.erase(id); w.edges.erase(std::remove_if(w.edges.begin(), w.edges.end(), [&](const MEdge& e) { return e.src == id || e.dst == id; }), w.edges.end());
		}
		else if (c == 4)
		{
			if (w.edges.empty()) break;
			const MEdge e = w.edges[w.edges.size() / 2]; mc::op("disconnect(%d->%d)", e.src, e.dst); w.node[e.src]->disconnect(w.node[e.dst]);
			size_t left = 0, before = 0; for (auto& x : w.node[e.src]->outputs()) left += x.pTarget == w.node[e.dst];
			for (auto& x : w.edges) before += x.src == e.src && x.dst == e.dst;
			MC_CHECK(left == before - 1 || left == 0, "disconnect", "disconnect left %zu of %zu edges", left, before);
			for (size_t k = 0; k < w.edges.size();) if (w.edges[k].src == e.src && w.edges[k].dst == e.dst && before > left) { w.edges.erase(w.edges.begin() + k); --before; } else ++k;
		}
		else { mc::op("move"); std::unique_ptr<G> o(new G(std::move(*w.g))); w.g = std::move(o); }
		w.verify("operation"); MC_CHECK(size_t(El::alive() - base) == w.edges.size() * 2, "edge-data", "%d edge data objects alive for %zu edges", El::alive() - base, w.edges.size());
		mc::state(mc::mix(w.key(), kind));
	}
	mc::outcome("large graph"); w.g.reset(); MC_CHECK(El::alive() == base, "edge-data", "edge data alive after destruction"); w.al.expectEmpty("after destruction");
}
MC_SCENARIO(large_functions, 2)
{
	const unsigned kind = mc::choose(5, "shape"), n = g_large[mc::choose(16, "blocks")]; track::Allocator al; Log log; mc::op("build(shape %u, %u blocks)", kind, n);
	{
		Module m(&al, &log); Function& f = m.addFunction<void>("f", spv::FunctionControlMask::MaskNone, false); Instruction* cond = m.constant(true); Instruction* sel = m.constant(1u);
		std::vector<BasicBlock*> b; for (unsigned i = 0; i < n; ++i) b.push_back(&f.addBasicBlock());
		std::vector<std::multiset<unsigned>> want(n), in(n);
		auto edges = shape(kind, n); for (auto& e : edges) { want[e.first].insert(e.second); in[e.second].insert(e.first); }
		for (unsigned i = 0; i < n; ++i)
		{
			std::vector<unsigned> t(want[i].begin(), want[i].end()); BasicBlock& bb = *b[i];
			if (t.empty()) bb->opReturn(); else if (t.size() == 1) bb->opBranch(b[t[0]]); else if (t.size() == 2) bb->opBranchConditional(cond, b[t[0]], b[t[1]]);
			else { Instruction* s = bb->makeOp(spv::Op::OpSwitch, sel, b[t[0]]); for (unsigned k = 1; k < t.size(); ++k) { s->addOperand(literal_t{ k }); s->addOperand(b[t[k]]); } }
		}
		ControlFlowGraph<> cfg(f); MC_CHECK(cfg.size() == n, "cfg-nodes", "control flow graph has %zu nodes for %u blocks", size_t(cfg.size()), n);
		std::map<const BasicBlock*, unsigned> index; for (unsigned i = 0; i < n; ++i) index[b[i]] = i;
		for (auto& nd : cfg)
		{
			MC_CHECK(index.count(nd.data()), "cfg-nodes", "a node stands for no block"); const unsigned i = index[nd.data()]; std::multiset<unsigned> o, q; for (auto& e : nd.outputs()) o.insert(index[e.pTarget->data()]); for (auto& e : nd.inputs()) q.insert(index[e.pTarget->data()]);
			// several edges to one block may be merged
			auto same = [](const std::multiset<unsigned>& a, const std::multiset<unsigned>& w) { return a == w || std::set<unsigned>(w.begin(), w.end()) == std::set<unsigned>(a.begin(), a.end()); };
			MC_CHECK(same(o, want[i]), "cfg-edges", "block %u of %u has %zu outgoing edges, terminator names %zu targets", i, n, o.size(), want[i].size()); MC_CHECK(same(q, in[i]), "cfg-symmetry", "block %u of %u has %zu incoming edges, expected %zu", i, n, q.size(), in[i].size());
		}
		mc::state(mc::mix(kind, n)); mc::outcome("large function");
	}
	al.expectEmpty("after destruction");
}
MC_SCENARIO(large_call_graphs, 2)
{
	const unsigned kind = mc::choose(6, "shape"), n = g_large[mc::choose(16, "functions")]; track::Allocator al; Log log; mc::op("build(shape %u, %u functions)", kind, n);
	{
		Module m(&al, &log); std::vector<Function*> f; for (unsigned i = 0; i < n; ++i) f.push_back(&m.addFunction<void>("f"));
		std::map<const Function*, unsigned> index; for (unsigned i = 0; i < n; ++i) index[f[i]] = i;
		std::vector<std::multiset<std::pair<unsigned, const Instruction*>>> out(n), in(n);
		for (auto& e : shape(kind, n)) { Instruction* c = f[e.first]->front()->call(f[e.second]); out[e.first].insert({ e.second, c }); in[e.second].insert({ e.first, c }); }
		for (auto* x : f) x->front().returnValue();
		const unsigned root = mc::choose(2, "root") ? n / 2 : 0; std::set<unsigned> need; std::vector<unsigned> todo = { root }; while (!todo.empty()) { const unsigned i = todo.back(); todo.pop_back(); if (need.insert(i).second) for (auto& s : out[i]) todo.push_back(s.first); }
		FunctionCallGraph g(*f[root]); MC_CHECK(g.size() == need.size(), "callgraph-nodes", "call graph has %zu nodes, %zu functions are reachable", size_t(g.size()), need.size());
		for (auto& nd : g)
		{
			const unsigned i = index[nd.data()]; MC_CHECK(need.count(i), "callgraph-nodes", "function %u is not reachable", i); std::multiset<std::pair<unsigned, const Instruction*>> o, q, wq; for (auto& e : nd.outputs()) o.insert({ index[e.pTarget->data()], e.data }); for (auto& e : nd.inputs()) q.insert({ index[e.pTarget->data()], e.data });
			for (auto& e : in[i]) if (need.count(e.first)) wq.insert(e);
			MC_CHECK(o == out[i], "callgraph-edges", "function %u of %u: %zu call edges, %zu call sites", i, n, o.size(), out[i].size()); MC_CHECK(q == wq, "callgraph-symmetry", "function %u of %u: %zu incoming edges, %zu call sites", i, n, q.size(), wq.size());
		}
		mc::state(mc::mix(mc::mix(kind, n), root)); mc::outcome("large call graph");
	}
	al.expectEmpty("after destruction");
}
MC_SCENARIO(large_expressions, 2)
{
	const unsigned kind = mc::choose(6, "shape"), n = g_large[mc::choose(16, "nodes")]; mc::op("build(shape %u, %u nodes)", kind, n);
	if (mc::flip("edges")) largeExpr<StepE, ExprArgs::EdgeLists>(kind, n); else largeExpr<Step, ExprArgs::FunctionPtrLists>(kind, n);
	mc::outcome("large expression");
}
