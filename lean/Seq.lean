/-
The axioms of govc's abstract sequences (govc/seq.go), logs (govc/solve.go) and of
the recursive specification functions in contracts/*.spec, validated on Lean lists:
each theorem below is one axiom, with the operations interpreted as list functions,
so the axioms have a model. Checked by ../tools/leancheck.sh.
-/
import Mathlib.Data.List.Basic
import Mathlib.Data.List.TakeDrop
import Mathlib.Data.List.Nodup
import Mathlib.Tactic

set_option linter.all false
set_option linter.unusedSectionVars false
namespace Govc
variable {α : Type} [Inhabited α]

def len (s : List α) : Int := s.length
def at' (s : List α) (i : Int) : α := (s[i.toNat]?).getD default
def snoc (s : List α) (x : α) : List α := s ++ [x]
def take' (s : List α) (n : Int) : List α := s.take n.toNat
def of (A : Int → α) (o n : Int) : List α := (List.range n.toNat).map (fun (j : Nat) => A (o + (j : Int)))

theorem at_lt (s : List α) (i : Int) (h0 : 0 ≤ i) (h : i < len s) :
    ∃ h : i.toNat < s.length, at' s i = s[i.toNat] := by
  have : i.toNat < s.length := by unfold len at h; omega
  exact ⟨this, by simp [at', List.getElem?_eq_getElem this]⟩

theorem len_empty : len ([] : List α) = 0 := rfl
theorem len_nonneg (s : List α) : 0 ≤ len s ∧ (len s = 0 → s = []) := by
  constructor
  · simp [len]
  · intro h; simpa [len] using h
theorem len_snoc (s : List α) (x : α) : len (snoc s x) = len s + 1 ∧ at' (snoc s x) (len s) = x := by
  simp [len, snoc, at']
theorem at_snoc (s : List α) (x : α) (i : Int) (h : 0 ≤ i ∧ i < len s) : at' (snoc s x) i = at' s i := by
  have : i.toNat < s.length := by have := h.2; unfold len at this; omega
  simp [at', snoc, List.getElem?_append_left this]
theorem len_cat (s t : List α) : len (s ++ t) = len s + len t := by simp [len]
theorem at_cat (s t : List α) (i : Int) (h : 0 ≤ i ∧ i < len s + len t) :
    at' (s ++ t) i = if i < len s then at' s i else at' t (i - len s) := by
  split
  · rename_i hl
    have : i.toNat < s.length := by unfold len at hl; omega
    simp [at', List.getElem?_append_left this]
  · rename_i hl
    have h1 : s.length ≤ i.toNat := by unfold len at hl; omega
    have h2 : (i - len s).toNat = i.toNat - s.length := by unfold len; omega
    simp only [at', h2, List.getElem?_append_right h1]
theorem cat_empty (s : List α) : s ++ [] = s := by simp
theorem empty_cat (s : List α) : [] ++ s = s := rfl
theorem cat_snoc (s t : List α) (x : α) : s ++ snoc t x = snoc (s ++ t) x := by simp [snoc]
theorem cat_assoc (s t u : List α) : (s ++ t) ++ u = s ++ (t ++ u) := by simp
theorem mem_cat (s t : List α) (x : α) : x ∈ s ++ t ↔ (x ∈ s ∨ x ∈ t) := by simp
theorem len_take (s : List α) (n : Int) (h : 0 ≤ n ∧ n ≤ len s) : len (take' s n) = n := by
  unfold len at *; simp [take']; omega
theorem at_take (s : List α) (n i : Int) (h : 0 ≤ i ∧ i < n ∧ n ≤ len s) : at' (take' s n) i = at' s i := by
  obtain ⟨h0, h1, h2⟩ := h
  unfold len at h2
  have a : i.toNat < s.length := by omega
  have b : i.toNat < n.toNat := by omega
  simp [at', take', List.getElem?_take, b]
theorem take_all (s : List α) (n : Int) (h : n = len s) : take' s n = s := by
  subst h; simp [take', len]
theorem take_zero (s : List α) : take' s 0 = [] := by simp [take']
theorem take_succ (s : List α) (n : Int) (h : 0 ≤ n ∧ n < len s) : take' s (n + 1) = snoc (take' s n) (at' s n) := by
  obtain ⟨h0, h1⟩ := h
  obtain ⟨hl, he⟩ := at_lt s n h0 h1
  have : (n + 1).toNat = n.toNat + 1 := by omega
  have e : s.take (n.toNat + 1) = s.take n.toNat ++ [s[n.toNat]] := by
    rw [List.take_add_one, List.getElem?_eq_getElem hl]; rfl
  unfold take' snoc; rw [this, he, e]
theorem mem_empty (x : α) : ¬ x ∈ ([] : List α) := by simp
theorem mem_idx (s : List α) : ∃ ix : α → Int, ∀ x, x ∈ s → 0 ≤ ix x ∧ ix x < len s ∧ at' s (ix x) = x := by
  classical
  refine ⟨fun x => (s.idxOf x : Int), fun x hx => ?_⟩
  have := List.idxOf_lt_length_of_mem hx
  refine ⟨by positivity, by simp [len, this], ?_⟩
  unfold at'; rw [Int.toNat_natCast, List.getElem?_eq_getElem this]; simp [List.getElem_idxOf]
theorem mem_at (s : List α) (i : Int) (h : 0 ≤ i ∧ i < len s) : at' s i ∈ s := by
  obtain ⟨hl, he⟩ := at_lt s i h.1 h.2
  rw [he]; exact List.getElem_mem hl
theorem mem_snoc (s : List α) (x y : α) : y ∈ snoc s x ↔ (y ∈ s ∨ x = y) := by
  simp [snoc, eq_comm]
theorem nodup_empty : ([] : List α).Nodup := List.nodup_nil
theorem nodup_snoc (s : List α) (x : α) : (snoc s x).Nodup ↔ (s.Nodup ∧ ¬ x ∈ s) := by
  simp [snoc, List.nodup_append]
  intro _
  constructor
  · intro h hx; exact h x hx rfl
  · intro h a ha e; exact h (e ▸ ha)
theorem nodup_at (s : List α) (i j : Int)
    (h : s.Nodup ∧ 0 ≤ i ∧ i < len s ∧ 0 ≤ j ∧ j < len s ∧ ¬ i = j) : ¬ at' s i = at' s j := by
  obtain ⟨hn, i0, i1, j0, j1, ne⟩ := h
  obtain ⟨hi, ei⟩ := at_lt s i i0 i1
  obtain ⟨hj, ej⟩ := at_lt s j j0 j1
  rw [ei, ej]
  intro e
  have := (List.Nodup.getElem_inj_iff hn).1 e
  omega
theorem len_of (A : Int → α) (o n : Int) : len (of A o n) = (if 0 ≤ n then n else 0) ∧ (n ≤ 0 → of A o n = []) := by
  constructor
  · simp [len, of]; split <;> omega
  · intro h; have : n.toNat = 0 := by omega
    simp [of, this]
theorem at_of (A : Int → α) (o n i : Int) (h : 0 ≤ i ∧ i < n) : at' (of A o n) i = A (o + i) := by
  have : i.toNat < n.toNat := by omega
  have hi : ((i.toNat : Int)) = i := by omega
  simp [at', of, this, hi]
theorem seq_ext : ∃ d : List α → List α → Int, ∀ s t, s = t ∨ ¬ len s = len t ∨
    (0 ≤ d s t ∧ d s t < len s ∧ ¬ at' s (d s t) = at' t (d s t)) := by
  classical
  have key : ∀ s t : List α, ∃ d : Int, s = t ∨ ¬ len s = len t ∨ (0 ≤ d ∧ d < len s ∧ ¬ at' s d = at' t d) := by
    intro s t
    by_cases hl : len s = len t
    · by_cases he : ∃ d : Int, 0 ≤ d ∧ d < len s ∧ ¬ at' s d = at' t d
      · obtain ⟨d, hd⟩ := he; exact ⟨d, Or.inr (Or.inr hd)⟩
      · refine ⟨0, Or.inl ?_⟩
        have hl' : s.length = t.length := by unfold len at hl; omega
        apply List.ext_getElem hl'
        intro n h1 h2
        by_contra hne
        apply he
        refine ⟨n, by positivity, by simpa [len] using h1, ?_⟩
        simp [at', List.getElem?_eq_getElem h1, List.getElem?_eq_getElem h2, hne]
    · exact ⟨0, Or.inr (Or.inl hl)⟩
  exact ⟨fun s t => (key s t).choose, fun s t => (key s t).choose_spec⟩

/- Logs: lists of events; lprev, llast, lcat. -/
def lprev {E : Type} (l : List E) : List E := l.dropLast
def llast {E : Type} [Inhabited E] (l : List E) : E := l.getLastD default
theorem log_snoc {E : Type} [Inhabited E] (l : List E) (e : E) : lprev (snoc l e) = l ∧ llast (snoc l e) = e := by
  simp [lprev, llast, snoc]

/- Recursive specification functions (equations over an index): each family of equations
   f(s, 0) = z, f(s, i+1) = g(f(s, i), s[i]) for 0 ≤ i < len s has a solution. Covers annSizes,
   marks, longest, collects, lookups, queries, keyvalue and, with pairs as states, uploads. -/
def iter {β : Type} (z : β) (g : β → α → β) (s : List α) (i : Int) : β := (take' s i).foldl g z
theorem iter_zero {β : Type} (z : β) (g : β → α → β) (s : List α) : iter z g s 0 = z := by
  simp [iter, take_zero]
theorem iter_succ {β : Type} (z : β) (g : β → α → β) (s : List α) (i : Int) (h : 0 ≤ i ∧ i < len s) :
    iter z g s (i + 1) = g (iter z g s i) (at' s i) := by
  simp [iter, take_succ s i h, snoc]

/- firsts / seenIDs: recursion on snoc. -/
section firsts
variable {ι : Type} [DecidableEq ι] (h : α → ι)
def seen (s : List α) : Set ι := {k | ∃ t ∈ s, h t = k}
open Classical in
noncomputable def step (st : List α × Set ι) (t : α) : List α × Set ι :=
  (if h t ∈ st.2 then st.1 else snoc st.1 t, insert (h t) st.2)
noncomputable def both (s : List α) : List α × Set ι := s.foldl (step h) ([], ∅)
theorem both_empty : both h ([] : List α) = ([], ∅) := rfl
theorem seen_snoc (s : List α) (t : α) : (both h (snoc s t)).2 = insert (h t) (both h s).2 := by
  simp [both, snoc, step]
open Classical in
theorem firsts_snoc (s : List α) (t : α) :
    (both h (snoc s t)).1 = if h t ∈ (both h s).2 then (both h s).1 else snoc (both h s).1 t := by
  simp [both, snoc, step]; congr
end firsts

/- allok(a, b): b extends a and every collection among the added events succeeded. ok says of a
   non-empty history whether its last event did not fail; it is true of lookups. -/
section allok
variable {E : Type} (ok : List E → Prop)
def allok (a b : List E) : Prop := ∃ c, b = a ++ c ∧ ∀ p e, (∃ q, c = p ++ [e] ++ q) → ok (a ++ p ++ [e])
theorem allok_refl (l : List E) : allok ok l l := ⟨[], by simp, by rintro p e ⟨q, hq⟩; simp at hq⟩
theorem allok_snoc (l m : List E) (e : E) :
    allok ok l (m ++ [e]) ↔ (l = m ++ [e] ∨ (allok ok l m ∧ ok (m ++ [e]))) := by
  constructor
  · rintro ⟨c, hc, hk⟩
    rcases List.eq_nil_or_concat c with rfl | ⟨c', e', rfl⟩
    · left; simpa using hc.symm
    · right
      have h1 : m ++ [e] = (l ++ c') ++ [e'] := by simpa using hc
      obtain ⟨h2, h3⟩ := List.append_inj' h1 rfl
      simp only [List.cons.injEq, and_true] at h3
      subst h2 h3
      refine ⟨⟨c', rfl, ?_⟩, ?_⟩
      · rintro p x ⟨q, hq⟩
        exact hk p x ⟨q ++ [e], by simp [hq]⟩
      · exact hk c' e ⟨[], by simp⟩
  · rintro (h | ⟨⟨c, hc, hk⟩, ho⟩)
    · subst h; exact allok_refl ok _
    · subst hc
      refine ⟨c ++ [e], by simp, ?_⟩
      rintro p x ⟨q, hq⟩
      rcases List.eq_nil_or_concat q with rfl | ⟨q', y, rfl⟩
      · have h1 : c ++ [e] = p ++ [x] := by simpa using hq
        obtain ⟨h2, h3⟩ := List.append_inj' h1 rfl
        simp only [List.cons.injEq, and_true] at h3
        subst h2 h3; exact ho
      · have h1 : c ++ [e] = (p ++ [x] ++ q') ++ [y] := by simpa using hq
        obtain ⟨h2, _⟩ := List.append_inj' h1 rfl
        exact hk p x ⟨q', h2⟩
theorem allok_trans (a b c : List E) (h1 : allok ok a b) (h2 : allok ok b c) : allok ok a c := by
  obtain ⟨u, rfl, hu⟩ := h1
  induction' hv : c using List.reverseRecOn with c' e ih generalizing c
  · obtain ⟨v, hv', _⟩ := h2
    have : a = [] ∧ u = [] := by
      have := hv.symm.trans hv'; simp at this; exact ⟨this.1, this.2.1⟩
    rw [this.1]; exact allok_refl ok _
  · subst hv
    rcases (allok_snoc ok _ _ _).1 h2 with h | ⟨h, ho⟩
    · rw [← h]; exact ⟨u, rfl, hu⟩
    · exact (allok_snoc ok _ _ _).2 (Or.inr ⟨ih c' h rfl, ho⟩)
end allok
end Govc
