From ab01d1f91507bc2271819b17208e01734d0e7371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 01/18] fix: reject anti-cyclic ID pairs in
 formulate_scattering_angle

The guard compared a set with tuples, so that it could never be true.
---
 src/ampform_dpd/angles.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ampform_dpd/angles.py b/src/ampform_dpd/angles.py
index 6f2e1e2..3168d85 100644
--- a/src/ampform_dpd/angles.py
+++ b/src/ampform_dpd/angles.py
@@ -19,11 +19,7 @@ def formulate_scattering_angle(
     if not {state_id, sibling_id} <= {1, 2, 3}:
         msg = "Child IDs need to be one of 1, 2, 3"
         raise ValueError(msg)
-    if {state_id, sibling_id} in {  # pyright: ignore[reportUnnecessaryContains]
-        (2, 1),
-        (3, 2),
-        (1, 3),
-    }:
+    if (state_id, sibling_id) in {(2, 1), (3, 2), (1, 3)}:
         msg = f"Cannot compute scattering angle θ{state_id}{sibling_id}"
         raise NotImplementedError(msg)
     if state_id == sibling_id:
-- 
2.43.0


From 9f3824da79b059b94717fbf70422305f42fc9124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 02/18] fix: return the cleaned-up intensity from
 formulate(cleanup_summations=True)

The cleaned-up sum was computed, but the returned model contained a newly
constructed one.
---
 src/ampform_dpd/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index e848bd2..54e7d3d 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -149,10 +149,7 @@ class DalitzPlotDecompositionBuilder:
             intensity = intensity.cleanup()  # type:ignore[assignment]
         return AmplitudeModel(
             decay=self.decay,
-            intensity=PoolSum(
-                sp.Abs(aligned_amp) ** 2,
-                *allowed_helicities.items(),
-            ),
+            intensity=intensity,  # type:ignore[arg-type]
             amplitudes=amplitude_definitions,
             variables=angle_definitions,
             parameter_defaults=parameter_defaults,
-- 
2.43.0


From 18d23a5a063d44e7f9396d8232d82e0ea0d8779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 03/18] fix: use the dynamics builder that is registered for
 the decay chain itself

The lookup went via the name of the resonance, so that the builder of the first
chain with that name was used for all chains of that resonance. Registering a
builder by resonance name now covers all chains with that resonance.
---
 src/ampform_dpd/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index 54e7d3d..d4d659f 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -181,7 +181,7 @@ class DalitzPlotDecompositionBuilder:
         terms = []
         parameter_defaults: dict[sp.Basic, complex] = {}
         for chain in self.decay.get_subsystem(subsystem_id).chains:
-            formulate_dynamics = self.dynamics_choices.get_builder(chain.resonance.name)
+            formulate_dynamics = self.dynamics_choices.get_builder(chain)
             dynamics = formulate_dynamics(chain)
             parameter_defaults.update(dynamics.parameters)
             resonance_spin = sp.Rational(chain.resonance.spin)
@@ -450,7 +450,10 @@ class DynamicsConfigurator:
 
     def register_builder(self, identifier, builder: DynamicsBuilder) -> None:
         chain = self.__get_chain(identifier)
-        self.__dynamics_builders[chain] = builder
+        chains = [chain]
+        if isinstance(identifier, str):
+            chains = [c for c in self.__decay.chains if c.resonance.name == identifier]
+        self.__dynamics_builders.update(dict.fromkeys(chains, builder))
 
     def get_builder(self, identifier) -> DynamicsBuilder:
         chain = self.__get_chain(identifier)
-- 
2.43.0


From 32a0f754e22575f5493dd56bc5b1215bcf1727dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 04/18] fix: formulate LS recoupling for vertices with final
 states

sympy.Rational() was called on a State instead of on its spin.
---
 src/ampform_dpd/io/serialization/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 8aad442..1516ef6 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -329,7 +329,7 @@ def _get_child_spins(
     spins = []
     for node_item in node:
         if isinstance(node_item, int):
-            spins.append(sp.Rational(final_state[node_item]))
+            spins.append(final_state[node_item].spin)
         else:
             spins.append(__get_propagator_spin(chain_definition))
     return tuple(spins)
-- 
2.43.0


From b3542ea3bfbce538df0600064e31b9db1b63a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 05/18] fix: align rows with header in Markdown table of decay
 chains

Chains without LS coupling resulted in rows with missing or shifted cells.
---
 src/ampform_dpd/io/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index a9b57e0..6ff7174 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -188,9 +188,11 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         R"mass (MeV)",
         R"width (MeV)",
     ]
-    if any(c.outgoing_ls is not None for c in decay_chains):
+    render_outgoing_l = any(c.outgoing_ls is not None for c in decay_chains)
+    render_incoming_l = any(c.incoming_ls is not None for c in decay_chains)
+    if render_outgoing_l:
         column_names.append(R"$L_\mathrm{dec}^\mathrm{min}$")
-    if any(c.incoming_ls is not None for c in decay_chains):
+    if render_incoming_l:
         column_names.append(R"$L_\mathrm{prod}^\mathrm{min}$")
     src = _create_markdown_table_header(column_names)
     for chain in decay_chains:
@@ -201,10 +203,10 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
             f"{int(1e3 * chain.resonance.mass):,.0f}",
             f"{int(1e3 * chain.resonance.width):,.0f}",
         ]
-        if chain.outgoing_ls is not None:
-            row_items.append(chain.outgoing_ls.L)
-        if chain.incoming_ls is not None:
-            row_items.append(chain.incoming_ls.L)
+        if render_outgoing_l:
+            row_items.append(" " if chain.outgoing_ls is None else chain.outgoing_ls.L)
+        if render_incoming_l:
+            row_items.append(" " if chain.incoming_ls is None else chain.incoming_ls.L)
         src += _create_markdown_table_row(row_items)
     return src
 
-- 
2.43.0


From 5a6e10a88c96591f1b6b4e033a15f9b89dabf0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 06/18] fix: support particles without parity in QRules adapter

---
 src/ampform_dpd/adapter/qrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 519f879..7c34406 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -143,7 +143,7 @@ def _to_particle(
         name=particle.name,
         latex=particle.name if particle.latex is None else particle.latex,
         spin=particle.spin,
-        parity=int(particle.parity),  # type:ignore[arg-type]
+        parity=None if particle.parity is None else int(particle.parity),  # type:ignore[arg-type]
         mass=particle.mass,
         width=particle.width,
     )
@@ -164,7 +164,7 @@ def _to_state(obj: Any, index: StateIDTemplate | None = None):
         name=obj.name,
         latex=obj.name if obj.latex is None else obj.latex,  # pyright:ignore[reportUnnecessaryComparison]
         spin=obj.spin,
-        parity=int(obj.parity),  # type:ignore[arg-type]
+        parity=None if obj.parity is None else int(obj.parity),  # type:ignore[arg-type]
         mass=obj.mass,
         width=obj.width,
         index=index,
-- 
2.43.0


From 02afe64f251538da2c0d6ba5277569f8825baff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 07/18] fix: do not exhaust one-shot iterables in filter_min_ls

The transitions are iterated several times, so that an iterator resulted in an
empty tuple.
---
 src/ampform_dpd/adapter/qrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 7c34406..886b602 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -191,6 +191,7 @@ def filter_min_ls(
     transitions: Iterable[FrozenTransition[EdgeType, NodeType]],
     node_ids: set[int] | None = None,
 ) -> tuple[FrozenTransition[EdgeType, NodeType], ...]:
+    transitions = tuple(transitions)
     available_node_ids = {i for t in transitions for i in t.interactions}
     if available_node_ids != {0, 1}:
         msg = (
-- 
2.43.0


From 77201b57884dd63ae1200de2e3689a86deaa33e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 08/18] fix: do not share parameters between a
 DefinedExpression and its product

Scaling with a factor returned an object that aliased the (mutable) parameters of
the original.
---
 src/ampform_dpd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index d4d659f..3b93ca9 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -499,7 +499,7 @@ class DefinedExpression:
             )
         return DefinedExpression(
             expression=self.expression * other,
-            parameters=self.parameters,
+            parameters={**self.parameters},
         )
 
 
-- 
2.43.0


From 06fa8b84fb5887e95ab8f402f94868fe49f64dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 09/18] fix: round masses and widths in Markdown tables

Floating-point errors were truncated, so that for instance 1.005 GeV was rendered
as 1,004 MeV.
---
 src/ampform_dpd/io/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index 6ff7174..31ad88a 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -172,8 +172,8 @@ def _as_resonance_markdown_table(items: Sequence[Particle | State]) -> str:
             f"`{particle.name}`",
             f"${particle.latex}$",
             Rf"${aslatex(particle, only_jp=True)}$",  # type:ignore[call-arg]
-            f"{int(1e3 * particle.mass):,.0f}",
-            f"{int(1e3 * particle.width):,.0f}",
+            f"{1e3 * particle.mass:,.0f}",
+            f"{1e3 * particle.width:,.0f}",
         ]
         if render_index:
             row_items.insert(0, particle.index if isinstance(particle, State) else " ")
@@ -200,8 +200,8 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         row_items: list = [
             Rf"${chain.resonance.latex} \to {child1} {child2}$",
             Rf"${aslatex(chain.resonance, only_jp=True)}$",  # type:ignore[call-arg]
-            f"{int(1e3 * chain.resonance.mass):,.0f}",
-            f"{int(1e3 * chain.resonance.width):,.0f}",
+            f"{1e3 * chain.resonance.mass:,.0f}",
+            f"{1e3 * chain.resonance.width:,.0f}",
         ]
         if render_outgoing_l:
             row_items.append(" " if chain.outgoing_ls is None else chain.outgoing_ls.L)
-- 
2.43.0


From 5a06da7123c064fbb6860b5cc44e32f8b0647047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 10/18] fix: conserve helicity in amplitude of serialized decay
 chains
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The amplitude of a decay chain is non-zero only if λ0 = λR - λk, but the amplitude
was the same for each helicity λ0 of the initial state.
---
 src/ampform_dpd/io/serialization/amplitude.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 1516ef6..632b679 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -142,8 +142,10 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
     subsystem_id = get_spectator_id(chain_definition["topology"])
     h_prod = formulate_recoupling(model, chain_idx, vertex_idx=0)
     h_dec = formulate_recoupling(model, chain_idx, vertex_idx=1)
+    λk = (λ0, λ1, λ2, λ3)[subsystem_id]
     amplitude_expression = (
         weight
+        * δ(λ0, λR - λk)
         * h_prod
         * h_dec
         * Wigner.d(jR, λR, λi_val - λj_val, θij)
-- 
2.43.0


From cd31430707783ec7ac2fcf86f2b6d1db6d39758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 11/18] fix: use squared masses consistently in serialized
 production form factors

The form factor of the production vertex was formulated with the mass of the
initial state instead of its square and with the squared mass of the isobar
instead of its mass.
---
 src/ampform_dpd/io/serialization/dynamics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index cbf1fcf..acfabc8 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -84,6 +84,10 @@ def formulate_form_factor(vertex: Vertex, model: ModelDefinition) -> DefinedExpr
         if all(isinstance(i, int) for i in node):
             meson_radius = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
         else:
+            s = s**2  # m0 is a mass, whereas σ is a squared mass
+            m1, m2 = (
+                m if isinstance(i, int) else sp.sqrt(m) for i, m in zip(node, (m1, m2))
+            )
             initial_state = get_initial_state(model)
             meson_radius = sp.Symbol(f"R_{{{initial_state.latex}}}", nonnegative=True)
         angular_momentum = int(function_definition["l"])
-- 
2.43.0


From 96c1f57d981e0ab3c2a9cf6473ca8d1d0e555439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 12/18] fix: give each channel of a multi-channel Breit-Wigner
 its own parameters

The mass symbols of additional channels were shared between resonances, so that
their defaults overwrote each other, and the meson radius of additional channels
was ignored.
---
 src/ampform_dpd/io/serialization/dynamics.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index acfabc8..1f072e8 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -157,14 +157,18 @@ def formulate_multichannel_breit_wigner(  # noqa: PLR0914
         Γi = sp.Symbol(
             Rf"\Gamma_{{{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
         )
-        mi1 = sp.Symbol(f"m_{{a,{channel_idx}}}", nonnegative=True)
-        mi2 = sp.Symbol(f"m_{{b,{channel_idx}}}", nonnegative=True)
+        mi1 = sp.Symbol(f"m_{{a,{channel_idx}}}^{{{resonance}}}", nonnegative=True)
+        mi2 = sp.Symbol(f"m_{{b,{channel_idx}}}^{{{resonance}}}", nonnegative=True)
+        di = sp.Symbol(
+            Rf"R_{{{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
+        )
         angular_momentum = int(channel_definition["l"])
-        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, d))
+        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, di))
         parameter_defaults.update({
             mi1: channel_definition["ma"],
             mi2: channel_definition["mb"],
             Γi: channel_definition["gsq"],
+            di: channel_definition["d"],
         })
     return DefinedExpression(
         expression=MultichannelBreitWigner(s, mass, tuple(channels)),
-- 
2.43.0


From cbe87fe208f7fa5e07f622330122de791ac84180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 13/18] fix: LaTeX representation of channels of a
 multi-channel Breit-Wigner

---
 src/ampform_dpd/dynamics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/dynamics/__init__.py b/src/ampform_dpd/dynamics/__init__.py
index 18b94d0..1597ea7 100644
--- a/src/ampform_dpd/dynamics/__init__.py
+++ b/src/ampform_dpd/dynamics/__init__.py
@@ -156,7 +156,7 @@ class ChannelArguments(sp.Expr):
     m2: Any = 0
     angular_momentum: Any = 0
     meson_radius: Any = 1
-    _latex_repr_ = R"\Gamma^\text{channel}\left({{s}}, {{m0}}, {{width}}\right)"
+    _latex_repr_ = R"\Gamma^\text{{channel}}\left({s}, {m0}, {width}\right)"
 
     def evaluate(self) -> sp.Expr:
         s, m0, Γ0, m1, m2, L, R = self.args
-- 
2.43.0


From 1ac9348be5fd821c400490b4472e3ca05e93ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:55 +0000
Subject: [PATCH 14/18] fix: do not hand out the cached parametrized function
 of lambdify

---
 src/ampform_dpd/io/cached.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index 057c21a..7c41971 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -9,16 +9,14 @@ import cloudpickle
 from ampform.sympy._cache import cache_to_disk  # noqa: PLC2701
 from ampform.sympy.cached import doit, simplify, subs, trigsimp, unfold, xreplace
 from frozendict import frozendict
+from tensorwaves.function import ParametrizedBackendFunction
 from tensorwaves.function.sympy import create_function, create_parametrized_function
 
 if TYPE_CHECKING:
     from collections.abc import Mapping
 
     import sympy as sp
-    from tensorwaves.function import (
-        ParametrizedBackendFunction,
-        PositionalArgumentFunction,
-    )
+    from tensorwaves.function import PositionalArgumentFunction
     from tensorwaves.interface import Function, ParameterValue, ParametrizedFunction
 
 __all__ = [
@@ -73,7 +71,13 @@ def lambdify(
         jax.config.update("jax_enable_x64", True)
     if parameters is None:
         return _lambdify_impl(expr, backend=backend)
-    return _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    func = _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    # The parameters of a function can be updated, so do not hand out the cached one.
+    return ParametrizedBackendFunction(
+        func.function,
+        func.argument_order,
+        func.parameters,
+    )
 
 
 @cache
-- 
2.43.0


From 1650e851af560a52977dbd38c616c87e020065db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:55 +0000
Subject: [PATCH 15/18] fix: assign couplings of a decay chain by node ID

---
 src/ampform_dpd/adapter/qrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 886b602..9df25d6 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -93,7 +93,8 @@ def _to_decay_chain(
     spectator_id, resonance_id = sorted(topology.get_edge_ids_outgoing_from_node(0))
     child1_id, child2_id = sorted(topology.get_edge_ids_outgoing_from_node(1))
     resonance_id, *_ = sorted(topology.get_edge_ids_ingoing_to_node(1))
-    production_node, decay_node = transition.interactions.values()
+    production_node = transition.interactions[0]
+    decay_node = transition.interactions[1]
     return ThreeBodyDecayChain(
         decay=IsobarNode(
             parent=parent,
-- 
2.43.0


From 9abf4d32c6f0891c2e8a9c6b5130edfd4e77b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:55 +0000
Subject: [PATCH 16/18] fix: do not merge transitions with different couplings
 at unselected nodes

---
 src/ampform_dpd/adapter/qrules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 9df25d6..e5fc208 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -219,9 +219,9 @@ def filter_min_ls(
             resonance,
             _get_decay_product_ids(transition.topology, resonance_id),
             tuple(
-                node
-                for i, node in transition.interactions.items()
-                if node and i not in node_ids
+                transition.interactions[i]
+                for i in sorted(transition.interactions)
+                if i not in node_ids
             ),
         )
         grouped_transitions[key].append(transition)
-- 
2.43.0


From 7f6772f219e70dd61e0da6b3e7f5c4cf28b0cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 17/18] fix: couple spins in integer steps only

---
 src/ampform_dpd/spin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/spin.py b/src/ampform_dpd/spin.py
index 8e1ba1e..3f1b629 100644
--- a/src/ampform_dpd/spin.py
+++ b/src/ampform_dpd/spin.py
@@ -31,6 +31,7 @@ def generate_ls_couplings(
         for L in angular_momenta
         for S in coupled_spins
         if abs(L - S) <= parent_spin <= L + S
+        if (L + S - parent_spin) % 1 == 0
     }
     return sorted(ls_couplings)
 
-- 
2.43.0


From 6ddacc24e81ab68b5f884997d647e394f31deec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 18/18] fix: label LS recouplings as such in LaTeX

---
 src/ampform_dpd/io/serialization/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 632b679..1cd7491 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -397,7 +397,7 @@ class LSRecoupling(sp.Expr):
     jb: Any
     j: Any
     _latex_repr_ = (
-        R"\mathcal{{H}}^\text{{parity}}\left({λa},{λb}|{l},{s},{ja},{jb},{j}\right)"
+        R"\mathcal{{H}}^\text{{LS}}\left({λa},{λb}|{l},{s},{ja},{jb},{j}\right)"
     )
 
     def evaluate(self) -> sp.Expr:
-- 
2.43.0

