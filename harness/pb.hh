// An independent checker for the pseudo-Boolean models and proofs the solver
// writes. It knows the proof format and cutting planes, and nothing about the
// solver.
#ifndef VERIF_PB_HH
#define VERIF_PB_HH
#include <deque>
#include <map>
#include <optional>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pb
{
    using I = __int128;

    struct Error : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };

    struct Term
    {
        I c;     // always positive once normalised
        int lit; // 2 * variable + negated
    };
    struct Con
    {
        std::vector<Term> t; // sorted by variable, each variable once
        I rhs = 0, sum = 0, maxc = 0;
    };

    struct Outcome
    {
        std::string conclusion; // the line, without `conclusion' and `;'
        long long solx = 0, soli = 0, steps = 0, rups = 0, pols = 0, reds = 0, goals = 0, dels = 0, assertions = 0, ias = 0, propagations = 0,
            subproofs = 0, extended = 0;
        std::optional<I> best;                       // the best objective value logged
        std::vector<std::vector<int>> solutions;     // assignments to the preserved variables
    };

    class Checker
    {
    public:
        std::vector<std::string> names;
        std::unordered_map<std::string, int> ids;
        std::vector<int> preserved; // variables
        bool has_preserved = false;
        std::vector<Term> objective; // unnormalised: coefficient may be negative, literal as written
        bool has_objective = false;
        long long n_model = 0;
        bool allow_assertions = false;
        bool strict_hints = true;
        bool extend_solutions = false; // accept a logged solution that needs search, not only propagation, to complete

        auto read_model(const std::string & text) -> void;
        auto check_proof(const std::string & text) -> Outcome;

        // Is there an assignment satisfying the live constraints and these literals?
        auto satisfiable(const std::vector<int> & lits, long long & nodes) -> bool;
        // Does unit propagation alone from these literals satisfy every model constraint?
        auto propagates_to_solution(const std::vector<int> & lits) -> bool;
        auto value_of(int var) const -> int { return value[2 * var]; } // after the above, -1 if free
        // After a successful `satisfiable': the value of a literal in what was found, -1 if left open.
        auto found(int lit) const -> int { return last[lit]; }
        auto find(const std::string & name) const -> int
        {
            auto i = ids.find(name);
            return i == ids.end() ? -1 : i->second;
        }

    private:
        struct Slot
        {
            Con c;
            I slack = 0;
            bool alive = false, core = false;
            unsigned allowed = 0;
        };
        std::deque<Slot> slots;
        std::vector<int> free_slots;
        std::unordered_map<long long, int> by_id;
        std::unordered_map<std::string, long long> labels;
        std::vector<std::vector<std::pair<int, I>>> occ; // by the literal in the constraint
        std::vector<int> eager;
        std::vector<signed char> value; // by literal: 1 true, 0 false, -1 free
        std::vector<int> trail;
        std::vector<signed char> last;
        size_t qhead = 0;
        unsigned stamp = 0;
        bool hinted = false;
        long long counter = 0; // last id used
        Outcome out;

        // text
        const char * p = nullptr;
        const char * e = nullptr;
        long line = 1;
        [[noreturn]] auto bad(const std::string & what) const -> void;
        auto space() -> void;
        auto to_eol() -> std::string;
        auto word() -> std::string; // up to white space, `;' or end of line
        auto number() -> I;
        auto at_number() -> bool;
        auto expect(const std::string & what) -> void;
        auto literal(const std::string & w) -> int;
        auto constraint(bool allow_new) -> Con;
        auto reference(const std::string & w, long long base) const -> long long;
        auto slot_of(long long id) const -> int;

        auto var(const std::string & name) -> int;
        auto normalise(std::vector<Term> && raw, I rhs) -> Con;
        auto negate(const Con &) const -> Con;
        auto add_slot(Con && c, bool core) -> int;
        auto kill_slot(int s) -> void;
        auto add_id(Con && c, bool core) -> long long;
        auto del_id(long long id, bool must) -> void;

        auto enqueue(int lit) -> bool;
        auto propagate() -> bool; // true if a conflict was found
        auto settle(int s, bool & conflict) -> void;
        auto start_all() -> bool; // queue up the initially propagating constraints
        auto undo(size_t to) -> void;
        auto rup(const Con & c, const std::vector<long long> * hints) -> bool;
        auto contradiction() -> bool;
        auto implies(const Con & a, const Con & b) const -> bool;
        auto implied_by_any(const Con & b) const -> bool;
        auto dpll(long long & nodes) -> bool;

        auto pol(const std::string & text) -> Con;
        auto redundancy(long depth) -> Con;
        auto step(int depth, bool & qed) -> void; // one rule
        auto substitute(const Con &, const std::map<int, int> & w, bool & touched) -> Con;
        std::optional<std::string> pending_label;
        bool concluded = false, ended = false;
        std::vector<long long> subproof_ids;
        bool in_subproof = false;
    };
}
#endif
