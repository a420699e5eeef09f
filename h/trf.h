// trf.h - element codes and a k-samples-per-base-sample transformer (P11, P20)
#pragma once
namespace {
// element codes: every element of every set is unique and tells its set, sample and column
static int code(int set, int i, int j) { return ((set * 64 + i) * 16 + j) + 1; }
template<class T> static T el(const math::smatrix<T>& m, int i, int j) { return m.bBatchInRow() ? m.get((vec_len_t)j, (vec_len_t)i) : m.get((vec_len_t)i, (vec_len_t)j); }
// k derived samples per stored one: X += 4096*s, Y -= 4096*s
struct Trf : public _i_td_transformer<R, R> {
	int k; MD bx, by; bool inited = false; const char* bad = nullptr; int maxb = 0; x_mtx_t*_px = nullptr; bool wx = false, wy = false;
	Trf(int k_) : k(k_) { bx.will_emulate_biases(); by.dont_emulate_biases(); }
	vec_len_t samplesInBaseSample()const noexcept { return (vec_len_t)k; }
	vec_len_t xWidth(const_TD_stor_t& t)const noexcept { return t.train_x().sample_size(); } vec_len_t yWidth(const_TD_stor_t& t)const noexcept { return t.train_y().sample_size(); }
	numel_cnt_t base_dataset_samples_count(const_TD_stor_t& t, data_set_id_t d)const noexcept { return t.X(d).batch_size(); }
	void deinit()noexcept { bx.clear(); by.clear(); inited = false; }
	template<typename iM> bool init(iM&, const_TD_stor_t& t, vec_len_t b)noexcept { if (inited) bad = "init() of an initialised transformer"; inited = true; maxb = (int)b; return bx.resize((vec_len_t)(b * k), xWidth(t)) && by.resize((vec_len_t)(b * k), yWidth(t)); }
	template<typename C> void next_epoch(const_TD_stor_t&, const numel_cnt_t, const C&, const vec_len_t b, x_mtx_t** px, y_mtx_t** py) noexcept { def(b); *px = &bx; *py = &by; wx = wy = true; }
	void def(vec_len_t b) { if (!inited) bad = "use of an uninitialised transformer"; else if (b < 1 || (int)b > maxb) bad = "base batch size is bigger than initialised"; else { bx.deform_batch_size_with_biases((vec_len_t)(b * k)); by.deform_batch_size((vec_len_t)(b * k)); } }
	void put(const_TD_stor_t& t, data_set_id_t d, int row, int idx) { if (idx < 0 || idx >= (int)t.X(d).batch_size()) { bad = "sample index out of range"; return; } for (int s = 0; s < k; s++) { if (wx) for (vec_len_t j = 0; j < xWidth(t); j++) bx.set((vec_len_t)(row * k + s), j, R(el(t.X(d), idx, (int)j) + R(4096 * s))); if (wy) for (vec_len_t j = 0; j < yWidth(t); j++) by.set((vec_len_t)(row * k + s), j, R(el(t.Y(d), idx, (int)j) - R(4096 * s))); } }
	template<typename C> void next_batch(const_TD_stor_t& t, const numel_cnt_t, const C&, const vec_len_t* p, const vec_len_t b)noexcept { def(b); if (bad) return; for (vec_len_t q = 0; q < b; q++) put(t, train_set_id, (int)q, (int)p[q]); }
	template<typename C> void walk(const_TD_stor_t&, const data_set_id_t, const C&, const vec_len_t b, const unsigned ex, x_mtx_t** px, y_mtx_t** py)noexcept { def(b); wx = !exclude_dataX(ex); wy = !exclude_dataY(ex); *px = wx ? &bx : nullptr; *py = wy ? &by : nullptr; }
	template<typename C> void walk_next(const_TD_stor_t& t, const data_set_id_t d, const numel_cnt_t, const C&, const vec_len_t b, const vec_len_t ofs, const unsigned)noexcept { def(b); if (bad) return; for (vec_len_t q = 0; q < b; q++) put(t, d, (int)q, (int)(ofs + q)); }
};
}
