#include "probe.h"

extern "C" {
#include <sqlite3.h>
}

#include "maidsafe/common/sqlite3_wrapper.h"

// ------------------------------------------------------------------ a stand-in for SQLite: what it was asked, in order
struct sqlite3 {
  int open;
};
struct sqlite3_stmt {
  int live, ready;
};

namespace probe {

struct Engine {
  sqlite3 connection;
  sqlite3_stmt prepared;
  std::string file, query, bound, stored;
  int flags, result, later, fails, after;   // the first `fails` results are `result`, then `later`, all others are `after`
  int wrong;                  // calls on something not open
  int messages;               // error messages not freed yet
  int begun, immediate, committed, rolled_back, in_transaction, executions, checkpoints;
  int bind_index, bound_null, copied, column, null_column, resets, steps, finalised, closed;
};

Engine engine;

void start() {
  engine.connection.open = 0;
  engine.prepared.live = 0;
  engine.prepared.ready = 0;
  engine.file = std::string();
  engine.query = std::string();
  engine.bound = std::string();
  engine.stored = std::string();
  engine.flags = 0;
  engine.result = SQLITE_OK;
  engine.later = SQLITE_OK;
  engine.after = SQLITE_OK;
  engine.fails = 0;
  engine.wrong = 0;
  engine.messages = 0;
  engine.begun = 0;
  engine.immediate = 0;
  engine.committed = 0;
  engine.rolled_back = 0;
  engine.in_transaction = 0;
  engine.executions = 0;
  engine.checkpoints = 0;
  engine.bind_index = 0;
  engine.bound_null = 0;
  engine.copied = 0;
  engine.column = 0;
  engine.null_column = 0;
  engine.resets = 0;
  engine.steps = 0;
  engine.finalised = 0;
  engine.closed = 0;
}

int next() {
  if (engine.fails == 0) return engine.after;
  --engine.fails;
  int r = engine.result;
  engine.result = engine.later;
  return r;
}

bool same_text(const std::string& s, const std::string& t) {
  if (s.size() < t.size()) return false;
  for (std::size_t i = 0; i < t.size(); ++i)
    if ((s[i] | 32) != (t[i] | 32)) return false;
  return true;
}

}  // namespace probe

using probe::engine;

extern "C" {
int sqlite3_open_v2(const char* filename, sqlite3** db, int flags, const char* vfs) {
  engine.file = filename;
  engine.flags = flags;
  engine.connection.open += 1;
  *db = &engine.connection;
  if (vfs) ++engine.wrong;
  return probe::next();
}
int sqlite3_close(sqlite3* db) {
  if (!db) return SQLITE_OK;
  if (!db->open || engine.prepared.live) ++engine.wrong;
  ++engine.closed;
  db->open = 0;
  return probe::next();
}
int sqlite3_close_v2(sqlite3* db) {
  if (!db) return SQLITE_OK;
  if (!db->open) ++engine.wrong;
  ++engine.closed;
  db->open = 0;
  return probe::next();
}
const char* sqlite3_errmsg(sqlite3*) { return "error"; }
const char* sqlite3_errstr(int) { return "error"; }
int sqlite3_errcode(sqlite3*) { return engine.result; }
int sqlite3_threadsafe(void) { return 1; }
int sqlite3_limit(sqlite3* db, int id, int value) {
  if (!db || !db->open) ++engine.wrong;
  return id == SQLITE_LIMIT_VARIABLE_NUMBER && value == -1 ? 999 : -2;
}
int sqlite3_busy_timeout(sqlite3* db, int ms) {
  if (!db || !db->open || ms < 0) ++engine.wrong;
  return SQLITE_OK;
}
void sqlite3_free(void* message) {
  if (message) --engine.messages;
}
int sqlite3_wal_checkpoint(sqlite3* db, const char*) {
  if (!db || !db->open) ++engine.wrong;
  ++engine.checkpoints;
  return probe::next();
}
int sqlite3_wal_checkpoint_v2(sqlite3* db, const char*, int, int*, int*) {
  if (!db || !db->open) ++engine.wrong;
  ++engine.checkpoints;
  return probe::next();
}
int sqlite3_exec(sqlite3* db, const char* sql, int (*)(void*, int, char**, char**), void*, char** message) {
  static char text[] = "error";
  if (!db || !db->open) ++engine.wrong;
  ++engine.executions;
  int r = probe::next();
  if (r != SQLITE_OK) {
    if (message) {
      *message = text;
      ++engine.messages;
    }
    return r;
  }
  if (message) *message = nullptr;
  if (probe::same_text(sql, "BEGIN")) {
    if (engine.in_transaction) ++engine.wrong;
    ++engine.begun;
    engine.immediate += probe::same_text(sql, "BEGIN IMMEDIATE") || probe::same_text(sql, "BEGIN EXCLUSIVE");
    engine.in_transaction = 1;
  } else if (probe::same_text(sql, "COMMIT") || probe::same_text(sql, "END")) {
    if (!engine.in_transaction) ++engine.wrong;
    ++engine.committed;
    engine.in_transaction = 0;
  } else if (probe::same_text(sql, "ROLLBACK")) {
    if (!engine.in_transaction) ++engine.wrong;
    ++engine.rolled_back;
    engine.in_transaction = 0;
  }
  return r;
}
int sqlite3_prepare_v2(sqlite3* db, const char* sql, int size, sqlite3_stmt** statement, const char**) {
  if (!db || !db->open) ++engine.wrong;
  const std::string text(sql);
  engine.query = size < 0 || static_cast<std::size_t>(size) >= text.size() ? text : text.substr(0, size);
  int r = probe::next();
  *statement = nullptr;
  if (r == SQLITE_OK) {
    *statement = &engine.prepared;
    engine.prepared.live += 1;
    engine.prepared.ready = 1;
  }
  return r;
}
int sqlite3_finalize(sqlite3_stmt* statement) {
  if (!statement) return SQLITE_OK;
  if (!statement->live) ++engine.wrong;
  statement->live -= 1;
  ++engine.finalised;
  return probe::next();
}
int sqlite3_bind_text(sqlite3_stmt* statement, int index, const char* data, int size, void (*destroy)(void*)) {
  if (!statement || !statement->live) ++engine.wrong;
  engine.bind_index = index;
  engine.bound_null = !data;
  engine.copied = destroy == SQLITE_TRANSIENT;
  engine.bound = data ? size < 0 ? std::string(data) : std::string(data, size) : std::string();
  return probe::next();
}
int sqlite3_bind_blob(sqlite3_stmt* statement, int index, const void* data, int size, void (*destroy)(void*)) {
  if (!statement || !statement->live) ++engine.wrong;
  engine.bind_index = index;
  engine.bound_null = !data;
  engine.copied = destroy == SQLITE_TRANSIENT;
  engine.bound = std::string();
  const unsigned char* bytes = static_cast<const unsigned char*>(data);
  for (int i = 0; i < size; ++i) engine.bound += static_cast<char>(bytes[i]);
  return probe::next();
}
int sqlite3_bind_zeroblob(sqlite3_stmt* statement, int index, int size) {
  if (!statement || !statement->live) ++engine.wrong;
  engine.bind_index = index;
  engine.bound_null = 0;
  engine.copied = 1;
  engine.bound = std::string(size, 0);
  return probe::next();
}
int sqlite3_step(sqlite3_stmt* statement) {
  if (!statement || !statement->live) ++engine.wrong;
  ++engine.steps;
  return probe::next();
}
int sqlite3_reset(sqlite3_stmt* statement) {
  if (!statement || !statement->live) ++engine.wrong;
  ++engine.resets;
  return probe::next();
}
const unsigned char* sqlite3_column_text(sqlite3_stmt* statement, int column) {
  if (!statement || !statement->live) ++engine.wrong;
  engine.column = column;
  return engine.null_column ? nullptr : reinterpret_cast<const unsigned char*>(engine.stored.c_str());
}
const void* sqlite3_column_blob(sqlite3_stmt* statement, int column) {
  if (!statement || !statement->live) ++engine.wrong;
  engine.column = column;
  return engine.null_column || engine.stored.empty() ? nullptr : engine.stored.data();
}
int sqlite3_column_bytes(sqlite3_stmt* statement, int column) {
  if (!statement || !statement->live || engine.column != column) ++engine.wrong;
  return engine.null_column ? 0 : static_cast<int>(engine.stored.size());
}
}

namespace probe {

using maidsafe::CommonErrors;
using maidsafe::maidsafe_error;
using maidsafe::sqlite::Database;
using maidsafe::sqlite::Mode;
using maidsafe::sqlite::Statement;
using maidsafe::sqlite::StepResult;
using maidsafe::sqlite::Transaction;

void fail(int times, int result, int later) {
  engine.fails = times;
  engine.result = result;
  engine.later = later;
}

// ------------------------------------------------------------------ connections
void p_open(int n_mode, int result) {
  start();
  const Mode modes[] = {Mode::kReadOnly, Mode::kReadWrite, Mode::kReadWriteCreate};
  const int flags[] = {SQLITE_OPEN_READONLY, SQLITE_OPEN_READWRITE, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE};
  fail(1, result, SQLITE_OK);
  try {
    Database database("/tmp/f.db", modes[n_mode]);
    claim(result == SQLITE_OK, "a database that cannot be opened is refused");
    claim(engine.connection.open == 1, "an open database has one connection");
    claim(database.InsertLimit() == 999, "the limit of variables is the engine's");
  } catch (const maidsafe_error& e) {
    claim(result != SQLITE_OK, "a database that can be opened is accepted");
    claim(carries(e, CommonErrors::db_not_present), "the error for a database that cannot be opened is db_not_present");
  }
  claim(engine.file == "/tmp/f.db" && engine.flags == flags[n_mode], "the file is opened in the mode asked for");
  claim(engine.connection.open == 0, "no connection stays open");
  claim(engine.closed == 1, "the connection is closed once");
  claim(engine.wrong == 0, "the engine is used only with what is open");
}

// The engine can refuse settings: that does not matter, and costs nothing.
void p_settings(int n_fails, int result) {
  given(result != SQLITE_OK);
  start();
  {
    fail(0, result, result);
    engine.after = SQLITE_OK;
    if (n_fails) {
      // opening works, what follows does not
      fail(2, SQLITE_OK, result);
      engine.after = result;
    }
    Database database("/tmp/f.db", Mode::kReadWrite);
    claim(engine.connection.open == 1, "an open database has one connection");
    database.CheckPoint();
    claim(engine.checkpoints == 1, "a checkpoint is asked for");
  }
  claim(engine.closed == 1 && engine.connection.open == 0, "the connection is closed once");
  claim(engine.messages == 0, "every error message of the engine is freed");
  claim(engine.wrong == 0, "the engine is used only with what is open");
}

// ------------------------------------------------------------------ transactions
void p_begin(int n_fails, int result, int later) {
  given(result != SQLITE_OK && later != SQLITE_OK && result != SQLITE_ROW && later != SQLITE_ROW);
  start();
  Database database("/tmp/f.db", Mode::kReadWrite);
  engine.messages = 0;
  engine.executions = 0;
  fail(n_fails, result, later);
  const bool absent = n_fails > 0 && result == SQLITE_NOTADB || n_fails > 1 && later == SQLITE_NOTADB;
  try {
    Transaction transaction(database);
    claim(!absent, "a transaction on something that is no database is refused");
    claim(n_fails < 200, "a transaction that cannot begin is refused");
    claim(engine.begun == 1 && engine.immediate == 1 && engine.in_transaction, "a transaction begins once, at once");
    claim(engine.committed == 0 && engine.rolled_back == 0, "a transaction that begins ends nothing");
    claim(engine.executions == n_fails + 1, "an engine that refuses is asked again");
  } catch (const maidsafe_error& e) {
    if (absent) {
      claim(carries(e, CommonErrors::db_not_present), "the error for no database is db_not_present");
    } else {
      claim(n_fails >= 200, "a transaction that can begin at last does");
      claim(carries(e, CommonErrors::unable_to_handle_request), "the error for a lock that is never free is unable_to_handle_request");
    }
    claim(engine.begun == 0 && engine.rolled_back == 0, "a transaction that did not begin ends nothing");
  }
  claim(engine.begun == engine.rolled_back && !engine.in_transaction, "a transaction not committed is rolled back");
  claim(engine.committed == 0, "only what is committed is kept");
  claim(engine.messages == 0, "every error message of the engine is freed");
  claim(engine.wrong == 0, "the engine is used only with what is open");
}

void p_commit(int n_fails, int result, int later) {
  given(result != SQLITE_OK && later != SQLITE_OK && result != SQLITE_ROW && later != SQLITE_ROW);
  start();
  Database database("/tmp/f.db", Mode::kReadWrite);
  engine.messages = 0;
  {
    Transaction transaction(database);
    fail(n_fails, result, later);
    engine.executions = 0;
    try {
      transaction.Commit();
      claim(n_fails < 200, "a commit that failed says so");
      claim(engine.committed == 1 && !engine.in_transaction, "what is committed is kept");
      claim(engine.executions == n_fails + 1, "an engine that refuses is asked again");
    } catch (const maidsafe_error& e) {
      claim(n_fails >= 200, "a commit that works at last is no failure");
      claim(carries(e, CommonErrors::unable_to_handle_request), "the error for a commit that never works is unable_to_handle_request");
      claim(engine.committed == 0 && engine.rolled_back == 0, "a commit that failed keeps nothing");
    }
    engine.fails = 0;
  }
  claim(engine.committed + engine.rolled_back == 1 && !engine.in_transaction, "a transaction ends once: committed or rolled back");
  claim((engine.rolled_back == 1) == (n_fails >= 200), "a transaction whose commit failed is rolled back");
  claim(engine.messages == 0, "every error message of the engine is freed");
  claim(engine.wrong == 0, "the engine is used only with what is open");
}

// A transaction is left because of an exception.
void p_abandon(int n_commit) {
  start();
  Database database("/tmp/f.db", Mode::kReadWrite);
  try {
    Transaction transaction(database);
    if (n_commit == 2) transaction.Commit();
    throw std::bad_alloc();
  } catch (const std::bad_alloc&) {
  }
  claim(engine.rolled_back == (n_commit != 2) && engine.committed == (n_commit == 2), "leaving a transaction by an exception rolls it back");
  {
    Transaction again(database);
    claim(engine.begun == 2 && engine.in_transaction, "another transaction can follow");
    again.Commit();
  }
  claim(!engine.in_transaction && engine.wrong == 0, "the engine is used only with what is open");
}

// Rolling back fails: nothing can be done, and nothing is thrown.
void p_rollback(int result) {
  given(result != SQLITE_OK && result != SQLITE_ROW);
  start();
  Database database("/tmp/f.db", Mode::kReadWrite);
  engine.messages = 0;
  {
    Transaction transaction(database);
    fail(1, result, SQLITE_OK);
    engine.executions = 0;
  }
  claim(engine.executions >= 1, "a transaction not committed is rolled back");
  claim(engine.committed == 0 && engine.messages == 0, "every error message of the engine is freed");
}

// ------------------------------------------------------------------ statements
void p_prepare(const std::string& query, int result) {
  for (char c : query) given(c != 0);
  start();
  Database database("/tmp/f.db", Mode::kReadWrite);
  fail(1, result, SQLITE_OK);
  try {
    Statement statement(database, query);
    claim(result == SQLITE_OK, "a statement that cannot be prepared is refused");
    claim(engine.query == query && engine.prepared.live == 1, "the whole query is prepared");
  } catch (const maidsafe_error& e) {
    claim(result != SQLITE_OK, "a statement that can be prepared is accepted");
    if (result == SQLITE_NOTADB)
      claim(carries(e, CommonErrors::db_not_present), "the error for no database is db_not_present");
    else
      claim(carries(e, CommonErrors::db_error), "the error for a query that cannot be prepared is db_error");
  }
  claim(engine.prepared.live == 0 && engine.finalised == (result == SQLITE_OK), "a statement is finalised once");
  claim(engine.wrong == 0, "the engine is used only with what is open");
}

void p_bind(const std::string& text, int n_blob, int index, int result) {
  start();
  Database database("/tmp/f.db", Mode::kReadWrite);
  {
    Statement statement(database, "q");
    fail(1, result, SQLITE_OK);
    const std::vector<unsigned char> blob(text.begin(), text.end());
    try {
      if (n_blob) statement.BindBlob(index, blob);
      else statement.BindText(index, text);
      claim(result == SQLITE_OK, "a value that cannot be bound is refused");
      claim(engine.bound == text, "every byte of the value is bound");
      claim(!engine.bound_null, "an empty value is no missing value");
      claim(engine.bind_index == index, "the value is bound to the parameter asked for");
      claim(engine.copied, "the value bound is the engine's own copy");
    } catch (const maidsafe_error& e) {
      claim(result != SQLITE_OK, "a value that can be bound is accepted");
      claim(carries(e, CommonErrors::db_error), "the error for a value that cannot be bound is db_error");
    }
  }
  claim(engine.prepared.live == 0 && engine.finalised == 1, "a statement is finalised once");
  claim(engine.wrong == 0, "the engine is used only with what is open");
}

void p_step(int result, int last) {
  start();
  Database database("/tmp/f.db", Mode::kReadWrite);
  {
    Statement statement(database, "q");
    fail(1, result, SQLITE_OK);
    try {
      const StepResult step = statement.Step();
      claim(result == SQLITE_ROW || result == SQLITE_DONE, "a step that failed says so");
      claim((step == StepResult::kSqliteRow) == (result == SQLITE_ROW) &&
                (step == StepResult::kSqliteDone) == (result == SQLITE_DONE), "a step says whether there is a row");
    } catch (const maidsafe_error& e) {
      claim(result != SQLITE_ROW && result != SQLITE_DONE, "a step that worked is no failure");
      claim(carries(e, CommonErrors::db_error), "the error for a failed step is db_error");
    }
    claim(engine.steps == 1, "a step is made once");
    fail(1, last, SQLITE_OK);     // finalising says again what the last step said
  }
  claim(engine.prepared.live == 0 && engine.finalised == 1, "a statement is finalised once");
  claim(engine.wrong == 0, "the engine is used only with what is open");
}

void p_reset(int result) {
  start();
  Database database("/tmp/f.db", Mode::kReadWrite);
  Statement statement(database, "q");
  fail(1, result, SQLITE_OK);
  try {
    statement.Reset();
    claim(result == SQLITE_OK, "a reset that failed says so");
  } catch (const maidsafe_error& e) {
    claim(result != SQLITE_OK, "a reset that worked is no failure");
    claim(carries(e, CommonErrors::db_error), "the error for a failed reset is db_error");
  }
  claim(engine.resets == 1 && engine.finalised == 0, "a reset is made once");
}

void p_column(const std::string& stored, int n_blob, int column) {
  start();
  Database database("/tmp/f.db", Mode::kReadOnly);
  Statement statement(database, "q");
  engine.stored = stored;
  if (n_blob) {
    const std::vector<unsigned char> blob = statement.ColumnBlob(column);
    claim(blob == std::vector<unsigned char>(stored.begin(), stored.end()), "a column is read with every byte it has");
  } else {
    claim(statement.ColumnText(column) == stored, "a column is read with every byte it has");
  }
  claim(engine.column == column && engine.wrong == 0, "the column asked for is read");
}

void p_null_column(int n_blob, int column) {
  start();
  Database database("/tmp/f.db", Mode::kReadOnly);
  Statement statement(database, "q");
  engine.null_column = 1;
  if (n_blob) claim(statement.ColumnBlob(column).empty(), "a column without value is empty");
  else claim(statement.ColumnText(column).empty(), "a column without value is empty");
}

void p_two_statements() {
  start();
  {
    Database database("/tmp/f.db", Mode::kReadWriteCreate);
    Transaction transaction(database);
    {
      Statement insert(database, "insert");
      fail(2, SQLITE_OK, SQLITE_DONE);
      insert.BindText(1, "k");
      claim(insert.Step() == StepResult::kSqliteDone, "a step says whether there is a row");
      insert.Reset();
    }
    Statement select(database, "select");
    transaction.Commit();
  }
  claim(engine.finalised == 2 && engine.prepared.live == 0, "a statement is finalised once");
  claim(engine.closed == 1 && engine.committed == 1 && engine.rolled_back == 0 && engine.wrong == 0,
        "the engine is used only with what is open");
}

}  // namespace probe
