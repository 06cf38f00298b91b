// the low rank decomposition and the matrix files
#include <pbt.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <map>
#include <vector>
#include <string>
#include <stdio.h>
#include <unistd.h>
#include <eigen3/Eigen/Sparse>
#include <eigen3/Eigen/Dense>
#include <eigen3/Eigen/Eigenvalues>
static int quietPrint(FILE *, const char *, ...) { return 0; }
#define fprintf quietPrint
#include <cybozu/nlp/svd.hpp>
#undef fprintf
using pbt::G;
using namespace cybozu::nlp;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> RMat;
typedef Eigen::SparseMatrix<double, Eigen::RowMajor> SMat;

static double orthoError(const Mat& m) { return (m.transpose() * m - Mat::Identity(m.cols(), m.cols())).norm(); }
static void note(G& g, const Mat& a)
{
	g.note() << a.rows() << "x" << a.cols() << " ";
	std::ostringstream os;
	os << a.format(Eigen::IOFormat(6, 0, " ", "; ", "", "", "[", "]"));
	g.note() << os.str() << " ";
}
static double genValue(G& g, int kind)
{
	switch (kind) {
	case 0: return (double)g.irange(-3, 3);
	case 1: return (double)g.irange(-20, 20) / 4;
	case 2: return g.chance(2, 3) ? 0 : (double)g.irange(-9, 9);
	default: return (double)g.irange(-1000000, 1000000) / 1000000;
	}
}
static Mat genMatrix(G& g, int row, int col)
{
	Mat a(row, col);
	int kind = (int)g.below(4);
	if (g.chance(1, 3)) { // low rank
		int k = 1 + (int)g.below(3);
		Mat x(row, k), y(k, col);
		for (int i = 0; i < row; i++) for (int j = 0; j < k; j++) x(i, j) = genValue(g, kind);
		for (int i = 0; i < k; i++) for (int j = 0; j < col; j++) y(i, j) = genValue(g, kind);
		a = x * y;
	} else {
		for (int i = 0; i < row; i++) for (int j = 0; j < col; j++) a(i, j) = genValue(g, kind);
	}
	return a;
}
// rank of m, -1 if a singular value is neither clearly zero nor clearly not zero
static int rankOf(const Mat& m)
{
	if (m.size() == 0) return 0;
	Vec s = Eigen::JacobiSVD<Mat>(m).singularValues();
	int r = 0;
	for (int i = 0; i < s.size(); i++) {
		if (s(i) > 1e-2) r++;
		else if (s(i) > 1e-9) return -1;
	}
	return r;
}

template<class A> static void checkSvd(G& g, const Mat& dense, const A& a, int rank)
{
	Mat U, V;
	Vec S;
	bool b = ComputeSVD(U, S, V, a, rank);
	const int r = std::min<int>(rank, (int)std::min(dense.rows(), dense.cols()));
	REQUIRE_EQ(b, r > 0);
	if (!b) return;
	REQUIRE_EQ((int)U.rows(), (int)dense.rows()); REQUIRE_EQ((int)U.cols(), r);
	REQUIRE_EQ((int)V.rows(), (int)dense.cols()); REQUIRE_EQ((int)V.cols(), r);
	REQUIRE_EQ((int)S.rows(), r);
	Vec full = Eigen::JacobiSVD<Mat>(dense).singularValues();
	const double norm = std::max(1.0, dense.norm()), eps = 1e-5 * norm;
	for (int i = 0; i < r; i++) {
		REQUIRE_MSG(S(i) >= 0, "negative singular value " << S(i));
		if (i > 0) REQUIRE_MSG(S(i) <= S(i - 1), "order of the singular values");
		REQUIRE_MSG(S(i) <= full(i) + eps, "singular value " << i << " is " << S(i) << " > " << full(i));
	}
	// the vectors of the singular values which are not zero are orthonormal
	int nz = 0;
	while (nz < r && S(nz) > 1e-2) nz++;
	REQUIRE_MSG(orthoError(U.leftCols(nz)) < 1e-5, "t(U) U is not I : " << orthoError(U.leftCols(nz)));
	REQUIRE_MSG(orthoError(V.leftCols(nz)) < 1e-5, "t(V) V is not I : " << orthoError(V.leftCols(nz)));
	Mat usv = U * S.asDiagonal() * V.transpose();
	// projection : the largest part is never larger than A, and t(U) A V = S
	REQUIRE_MSG(usv.norm() <= dense.norm() + eps, "norm of U S t(V)");
	Mat in = U.leftCols(nz).transpose() * dense * V.leftCols(nz);
	REQUIRE_MSG((in - Mat(S.head(nz).asDiagonal())).norm() < eps, "t(U) A V is not S");
	// if the r groups of rows span the row space, the decomposition is exact
	Mat R(dense.rows(), r);
	svd::InitUnitMatrix(R);
	Mat Y = dense.transpose() * R;
	int ra = rankOf(dense), ry = rankOf(Y);
	if (ra >= 0 && ry == ra) {
		g.label("exact");
		REQUIRE_MSG((usv - dense).norm() < eps, "A is not U S t(V) : " << (usv - dense).norm());
		for (int i = 0; i < r; i++) REQUIRE_MSG(fabs(S(i) - full(i)) < eps, "singular value " << i << " is " << S(i) << " must be " << full(i));
	} else if (ra >= 0 && ry >= 0) {
		g.label("approximate");
		// best in the span of Y
		Eigen::FullPivLU<Mat> lu(Y);
		lu.setThreshold(1e-9);
		Mat basis = lu.image(Y);
		Mat q = Eigen::HouseholderQR<Mat>(basis).householderQ() * Mat::Identity(basis.rows(), basis.cols());
		if (ry > 0) REQUIRE_MSG((usv - dense * q * q.transpose()).norm() < eps, "U S t(V) is not the projection of A");
	}
	g.nontrivial(ra > 1 && r > 1);
}
PROP_W(decompose, 3)
{
	int row = 1 + (int)g.below(9), col = 1 + (int)g.below(9);
	Mat a = genMatrix(g, row, col);
	int rank = (int)g.irange(-1, 10);
	note(g, a);
	g.note() << "rank " << rank;
	// well conditioned only : nothing is promised about cancelling columns
	int ra = rankOf(a);
	if (ra < 0) DISCARD();
	if (rank > 0) {
		int r = std::min(rank, std::min(row, col));
		Mat R(row, r);
		R.setZero();
		for (int i = 0; i < row; i++) R(i, i * r / row) = 1;
		if (rankOf(a.transpose() * R) < 0) DISCARD();
	}
	if (g.boolean()) checkSvd(g, a, a, rank);
	else { SMat m = a.sparseView(); checkSvd(g, a, m, rank); }
}
PROP(orthonormalize)
{
	int row = 1 + (int)g.below(9), col = 1 + (int)g.below(9);
	Mat a = genMatrix(g, row, col);
	note(g, a);
	int ra = rankOf(a);
	if (ra < 0) DISCARD();
	// every prefix must be clear
	for (int j = 1; j <= col; j++) if (rankOf(a.leftCols(j)) < 0) DISCARD();
	// columns which are small but clearly not zero count
	const double scale = g.chance(1, 3) ? 0.02 : g.chance(1, 8) ? 1e6 : 1;
	g.note() << "scale " << scale;
	Mat m = a * scale;
	svd::OrthonormalizeMatrix(m);
	g.nontrivial(ra > 1);
	REQUIRE_EQ((int)m.rows(), row); REQUIRE_EQ((int)m.cols(), col);
	for (int j = 0; j < col; j++) {
		int before = j == 0 ? 0 : rankOf(a.leftCols(j)), after = rankOf(a.leftCols(j + 1));
		double n = m.col(j).norm();
		REQUIRE_MSG(fabs(n - (after > before ? 1 : 0)) < 1e-5, "column " << j << " has norm " << n);
		for (int i = 0; i < j; i++) REQUIRE_MSG(fabs(m.col(i).dot(m.col(j))) < 1e-5, "columns " << i << ", " << j << " are not orthogonal");
		// the span of the first columns is kept and the direction of the new one is not turned
		Mat p = m.leftCols(j + 1) * m.leftCols(j + 1).transpose() * a.col(j);
		REQUIRE_MSG((p - a.col(j)).norm() < 1e-5 * std::max(1.0, a.norm()), "column " << j << " left the span");
		if (after > before) REQUIRE_MSG(m.col(j).dot(a.col(j)) > 0, "column " << j << " is turned");
	}
}
PROP(groups)
{
	int row = 1 + (int)g.below(g.boolean() ? 8 : 60), col = 1 + (int)g.below(row);
	g.note() << "unit matrix " << row << "x" << col;
	g.nontrivial(col > 1 && col < row);
	Mat m(row, col);
	m.setConstant(7);
	svd::InitUnitMatrix(m);
	std::vector<int> cnt(col);
	int prev = 0;
	for (int i = 0; i < row; i++) {
		int at = -1;
		for (int j = 0; j < col; j++) {
			if (m(i, j) == 0) continue;
			REQUIRE_MSG(m(i, j) == 1 && at < 0, "row " << i);
			at = j;
		}
		REQUIRE_MSG(at >= prev, "row " << i << " is in group " << at);
		prev = at;
		cnt[at]++;
	}
	for (int c : cnt) REQUIRE_MSG(c == row / col || c == row / col + 1, "size of a group is " << c);
	// CompressCol : m(h, row) => (h, col)
	int h = 1 + (int)g.below(4);
	Mat in(h, row), out;
	for (int i = 0; i < h; i++) for (int j = 0; j < row; j++) in(i, j) = (double)g.irange(-9, 9);
	Mat I = Mat::Identity(row, row), P;
	svd::CompressCol(P, I, col);
	REQUIRE_EQ((int)P.rows(), row); REQUIRE_EQ((int)P.cols(), col);
	prev = 0;
	std::fill(cnt.begin(), cnt.end(), 0);
	for (int i = 0; i < row; i++) {
		int at = -1;
		for (int j = 0; j < col; j++) {
			if (P(i, j) == 0) continue;
			REQUIRE_MSG(P(i, j) == 1 && at < 0, "column " << i << " is used twice");
			at = j;
		}
		REQUIRE_MSG(at >= prev, "column " << i << " is in group " << at);
		prev = at;
		cnt[at]++;
	}
	for (int c : cnt) REQUIRE_MSG(c == row / col || c == row / col + 1, "size of a group is " << c);
	svd::CompressCol(out, in, col);
	REQUIRE_MSG((out - in * P).norm() < 1e-9, "CompressCol is not linear");
}
static std::string fileName() { return "c37_" + std::to_string(getpid()) + ".txt"; }
static void putFile(const std::string& name, const std::string& text)
{
	std::ofstream ofs(name.c_str(), std::ios::binary);
	ofs << text;
}
static bool close(double a, double b) { return a == b || (std::isfinite(a) && std::isfinite(b) && fabs(a - b) <= 1e-7 * std::max(fabs(a), fabs(b))); }
static double genFileValue(G& g)
{
	switch (g.below(4)) {
	case 0: return 0;
	case 1: return (double)g.irange(-100, 100);
	case 2: return (double)g.irange(-100000000, 100000000) / 1e6;
	default: return (double)g.irange(-99999999, 99999999) * pow(10.0, (double)g.irange(-80, 80));
	}
}
template<class M1, class M2> static void same(const M1& a, const M2& b)
{
	REQUIRE_EQ((int)a.rows(), (int)b.rows()); REQUIRE_EQ((int)a.cols(), (int)b.cols());
	for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) REQUIRE_MSG(close(a(i, j), b(i, j)), "(" << i << "," << j << ") is " << b(i, j) << " must be " << a(i, j));
}
PROP(file_round_trip)
{
	const std::string name = fileName();
	int row = 1 + (int)g.below(8), col = 1 + (int)g.below(8);
	Mat a(row, col);
	for (int i = 0; i < row; i++) for (int j = 0; j < col; j++) a(i, j) = genFileValue(g);
	note(g, a);
	g.nontrivial(row > 1 && col > 1);
	REQUIRE(!svd::SaveMatrix("c37_no_dir/" + name, a));
	REQUIRE(!svd::LoadMatrix(a, "c37_no_dir/" + name));
	{
		SMat ns = a.sparseView(), os;
		Vec nv = a.col(0), ov;
		REQUIRE(!svd::SaveSparseMatrix("c37_no_dir/" + name, ns));
		REQUIRE(!svd::SaveVector("c37_no_dir/" + name, nv));
		REQUIRE(!svd::LoadSparseMatrix(os, "c37_no_dir/" + name));
		REQUIRE(!svd::LoadVector(ov, "c37_no_dir/" + name));
		// a disk which is full
		REQUIRE(!svd::SaveMatrix("/dev/full", a));
		REQUIRE(!svd::SaveSparseMatrix("/dev/full", ns));
		REQUIRE(!svd::SaveVector("/dev/full", nv));
	}
	Mat b(3, 1);
	RMat c;
	REQUIRE(svd::SaveMatrix(name, a));
	REQUIRE(svd::LoadMatrix(b, name)); same(a, b);
	REQUIRE(svd::LoadMatrix(c, name)); same(a, c);
	SMat s, t(2, 2);
	s = a.sparseView();
	Vec v(2), w;
	REQUIRE(!svd::LoadVector(v, name));
	REQUIRE(!svd::LoadSparseMatrix(t, name));
	REQUIRE(svd::SaveSparseMatrix(name, s));
	b.setConstant(5);
	REQUIRE(svd::LoadSparseMatrix(t, name)); same(a, Mat(t));
	REQUIRE(svd::LoadMatrix(b, name)); same(a, b);
	w = a.col(0);
	REQUIRE(svd::SaveVector(name, w));
	REQUIRE(svd::LoadVector(v, name)); same(w, v);
	REQUIRE(!svd::LoadMatrix(b, name));
	REQUIRE(!svd::LoadSparseMatrix(t, name));
	remove(name.c_str());
}
PROP(large_file)
{
	if (!g.chance(1, 40)) return;
	const std::string name = fileName();
	static const int sizes[] = { 255, 256, 257, 4096, 32767, 32768, 65535, 65536, 70000 };
	int n = sizes[g.below(sizeof(sizes) / sizeof(sizes[0]))], k = 1 + (int)g.below(2);
	bool tall = g.boolean();
	g.note() << (tall ? "tall " : "wide ") << n << " " << k;
	g.nontrivial(n > 32767);
	int row = tall ? n : k, col = tall ? k : n;
	SMat s(row, col), t;
	std::vector<Eigen::Triplet<double>> tr;
	std::map<std::pair<int, int>, double> at;
	at[{row - 1, col - 1}] = 1 + g.below(100);
	at[{0, 0}] = 3;
	for (int i = 0; i < 50; i++) at[{(int)g.below(row), (int)g.below(col)}] = 0.25 * (1 + g.below(1000));
	for (auto& p : at) tr.emplace_back(p.first.first, p.first.second, p.second);
	s.setFromTriplets(tr.begin(), tr.end());
	REQUIRE(svd::SaveSparseMatrix(name, s));
	REQUIRE(svd::LoadSparseMatrix(t, name));
	REQUIRE_EQ((int)t.rows(), row); REQUIRE_EQ((int)t.cols(), col);
	REQUIRE_EQ((size_t)t.nonZeros(), at.size());
	for (auto& p : at) REQUIRE_MSG(t.coeff(p.first.first, p.first.second) == p.second, "element " << p.first.first << "," << p.first.second);
	Mat d(s), e;
	REQUIRE(svd::LoadMatrix(e, name)); same(d, e);
	REQUIRE(svd::SaveMatrix(name, d));
	REQUIRE(svd::LoadMatrix(e, name)); same(d, e);
	if (tall) {
		Vec v = d.col(0), w;
		REQUIRE(svd::SaveVector(name, v));
		REQUIRE(svd::LoadVector(w, name)); same(v, w);
	}
	remove(name.c_str());
}
// files as others write them: any order and spaces, and files cut off
PROP(foreign_file)
{
	const std::string name = fileName();
	int row = 1 + (int)g.below(5), col = 1 + (int)g.below(6);
	bool sparse = g.boolean();
	Mat a = Mat::Zero(row, col);
	std::ostringstream os;
	os << std::setprecision(17);
	os << "#" << (g.boolean() ? " " : "  ") << "M " << (sparse ? "S" : "D") << " " << row << " " << col << "\n";
	std::vector<std::string> lines;
	bool unsorted = false;
	for (int i = 0; i < row; i++) {
		std::ostringstream ls;
		ls << std::setprecision(17);
		if (sparse) {
			int n = (int)g.below(col + 2), prev = -1;
			for (int k = 0; k < n; k++) {
				int j = (int)g.below(col);
				double x = genFileValue(g);
				a(i, j) = x;
				if (j <= prev) unsorted = true;
				prev = j;
				ls << (k ? (g.chance(1, 5) ? "  " : " ") : "") << j << ":" << x;
			}
		} else {
			for (int j = 0; j < col; j++) { a(i, j) = genFileValue(g); ls << (j ? (g.chance(1, 5) ? "\t" : " ") : "") << a(i, j); }
		}
		lines.push_back(ls.str());
	}
	int cut = g.chance(1, 3) ? (int)g.below(row) : row; // lines written
	for (int i = 0; i < cut; i++) os << lines[i] << "\n";
	g.note() << os.str();
	g.nontrivial(unsorted || cut < row);
	putFile(name, os.str());
	Mat b(1, 2);
	SMat s;
	REQUIRE_EQ(svd::LoadMatrix(b, name), cut == row);
	if (cut == row) same(a, b);
	REQUIRE_EQ(svd::LoadSparseMatrix(s, name), sparse && cut == row);
	if (sparse && cut == row) same(a, Mat(s));
	// a vector, perhaps with too few values, and a dense matrix which ends within a row
	Vec v;
	{
		std::ostringstream o;
		o << std::setprecision(17) << "# V D " << row;
		if (g.boolean()) o << " 1";
		o << "\n";
		int have = g.chance(1, 3) ? (int)g.below(row) : row;
		Vec w(row);
		for (int i = 0; i < row; i++) { w(i) = genFileValue(g); if (i < have) o << w(i) << (g.boolean() ? "\n" : " "); }
		if (have < row && g.boolean()) { o << (g.boolean() ? "x" : "-"); }
		g.note() << o.str();
		putFile(name, o.str());
		REQUIRE_EQ(svd::LoadVector(v, name), have == row);
		if (have == row) same(w, v);
		std::ostringstream p;
		p << "# M D " << row << " " << col << "\n";
		int n = (int)g.below(row * col + 1);
		for (int i = 0; i < n; i++) p << i + 1 << ((i + 1) % col ? " " : "\n");
		putFile(name, p.str());
		REQUIRE_EQ(svd::LoadMatrix(b, name), n == row * col);
		if (n == row * col) for (int i = 0; i < n; i++) REQUIRE_EQ(b(i / col, i % col), i + 1);
	}
	// broken pieces
	std::string bad;
	switch (g.below(10)) {
	case 0: bad = ""; break;
	case 1: bad = "\n"; break;
	case 2: bad = "#\n1 2\n"; break;
	case 3: bad = "# M\n1 2\n"; break;
	case 4: bad = "# M D 2\n1 2\n"; break;
	case 5: bad = "# X D 1 1\n1\n"; break;
	case 6: bad = "# M X 1 1\n0:1\n"; break;
	case 7: bad = "% M D 1 1\n1\n"; break;
	case 8: { static const char *t[] = { "-1 2", "0 2", "2 -1", "2 0", "x 2", "2 x" }; bad = std::string("# M D ") + g.pick(std::vector<const char*>(t, t + 6)) + "\n1 2 3 4\n"; break; }
	default: { static const char *t[] = { "3:1", "-1:1", "0:1 3:2", "1;2", "0 1", "0:1 x", "0:1 2", "0:1 2:", "x", "2:4 99999:1" }; bad = std::string("# M S 1 3\n") + g.pick(std::vector<const char*>(std::begin(t), std::end(t))) + "\n"; break; }
	}
	g.note() << " broken " << bad;
	putFile(name, bad);
	REQUIRE(!svd::LoadMatrix(b, name));
	REQUIRE(!svd::LoadSparseMatrix(s, name));
	REQUIRE(!svd::LoadVector(v, name));
	remove(name.c_str());
}
