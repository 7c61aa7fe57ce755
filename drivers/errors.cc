#include "probe.h"

#include "maidsafe/common/error_categories.h"
#include "maidsafe/common/serialisation/serialisation.h"

namespace probe {

using namespace maidsafe;

// Every enumerator of every enumeration of errors comes in as n_v.
template <typename Enum, typename Exception>
void round_trip(int v) {
  Enum e = static_cast<Enum>(v);
  std::error_code code = make_error_code(e);
  claim(code.value() == v, "an error code has the error's value");
  claim(make_error_condition(e).value() == v, "an error condition has the error's value");
  Exception x = MakeError(e);
  claim(x.code() == code, "the exception made for an error carries its code");
  int i = ErrorToInt(x);
  claim(i < 0, "the integer of an error is negative");
  claim(IntToError(i).code() == code, "an error survives conversion to an integer and back");
  try {
    throw x;
  } catch (const Exception& caught) {
    claim(caught.code() == code, "the exception can be caught by its own type");
  }
  try {
    throw x;
  } catch (const maidsafe_error& caught) {
    claim(caught.code() == code, "the exception can be caught as a maidsafe_error");
  }
  // copies, and the other constructors
  Exception a(code, "x"), b(v, code.category()), c(v, code.category(), std::string("y")), d(code);
  claim(a.code() == code && b.code() == code && c.code() == code && d.code() == code, "every constructor keeps the code");
}
void p_round_common(int n_v) { round_trip<CommonErrors, common_error>(n_v); }
void p_round_asymm(int n_v) { round_trip<AsymmErrors, asymm_error>(n_v); }
void p_round_passport(int n_v) { round_trip<PassportErrors, passport_error>(n_v); }
void p_round_encrypt(int n_v) { round_trip<EncryptErrors, encrypt_error>(n_v); }
void p_round_routing(int n_v) { round_trip<RoutingErrors, routing_error>(n_v); }
void p_round_nfs(int n_v) { round_trip<NfsErrors, nfs_error>(n_v); }
void p_round_drive(int n_v) { round_trip<DriveErrors, drive_error>(n_v); }
void p_round_vault(int n_v) { round_trip<VaultErrors, vault_error>(n_v); }
void p_round_vault_manager(int n_v) { round_trip<VaultManagerErrors, vault_manager_error>(n_v); }
void p_round_api(int n_v) { round_trip<ApiErrors, api_error>(n_v); }

// The categories are pairwise different.
void p_categories() {
  const std::error_category* c[] = {&GetCommonCategory(), &GetAsymmCategory(),  &GetPassportCategory(),
                                    &GetEncryptCategory(), &GetRoutingCategory(), &GetNfsCategory(),
                                    &GetDriveCategory(),  &GetVaultCategory(),  &GetVaultManagerCategory(),
                                    &GetApiCategory()};
  for (int i = 0; i < 10; ++i)
    for (int j = 0; j < 10; ++j)
      claim((*c[i] == *c[j]) == (i == j), "the categories are pairwise different");
}

// The wire values are fixed.
void p_wire() {
  claim(ErrorToInt(MakeError(CommonErrors::success)) == -100000, "the base of the wire values is fixed");
  claim(ErrorToInt(MakeError(AsymmErrors::keys_generation_error)) == -200001, "the base of the wire values is fixed");
  claim(ErrorToInt(MakeError(PassportErrors::id_already_exists)) == -300001, "the base of the wire values is fixed");
  claim(ErrorToInt(MakeError(EncryptErrors::bad_sequence)) == -400001, "the base of the wire values is fixed");
  claim(ErrorToInt(MakeError(RoutingErrors::timed_out)) == -500001, "the base of the wire values is fixed");
  claim(ErrorToInt(MakeError(NfsErrors::failed_to_get_data)) == -600001, "the base of the wire values is fixed");
  claim(ErrorToInt(MakeError(DriveErrors::no_drive_letter_available)) == -700001, "the base of the wire values is fixed");
  claim(ErrorToInt(MakeError(VaultErrors::failed_to_join_network)) == -800001, "the base of the wire values is fixed");
  claim(ErrorToInt(MakeError(VaultManagerErrors::connection_not_found)) == -900001, "the base of the wire values is fixed");
  claim(ErrorToInt(MakeError(ApiErrors::kPasswordFailure)) == -1000001, "the base of the wire values is fixed");
}

// Integers that belong to no category.
void p_foreign_int(int n_i) {
  try {
    IntToError(n_i);
    unreachable("an integer that belongs to no category is refused");
  } catch (const maidsafe_error& e) {
    claim(e.code() == make_error_code(CommonErrors::parsing_error), "the error for a foreign integer is parsing_error");
  }
}

void p_foreign_error(int v) {
  try {
    ErrorToInt(maidsafe_error(std::error_code(v, std::generic_category())));
    unreachable("an error of a foreign category is refused");
  } catch (const maidsafe_error& e) {
    claim(e.code() == make_error_code(CommonErrors::serialisation_error),
          "the error for a foreign category is serialisation_error");
  }
}

template <typename Category>
bool maps(const Category& c, int v, std::errc e) {
  return c.default_error_condition(v) == std::error_condition(static_cast<int>(e), std::generic_category());
}
template <typename Category>
bool keeps(const Category& c, int v) {
  return c.default_error_condition(v) == std::error_condition(v, c);
}

void p_portable() {
  using std::errc;
  using namespace maidsafe::detail;
  CommonCategory c;
  for (auto e : {CommonErrors::null_pointer, CommonErrors::invalid_identity, CommonErrors::invalid_key_size,
                 CommonErrors::outside_of_bounds, CommonErrors::invalid_argument})
    claim(maps(c, static_cast<int>(e), errc::invalid_argument), "argument errors are std::errc::invalid_argument");
  claim(maps(c, static_cast<int>(CommonErrors::file_too_large), errc::file_too_large), "file_too_large is portable");
  claim(maps(c, static_cast<int>(CommonErrors::cannot_invoke_from_this_thread), errc::operation_not_permitted),
        "cannot_invoke_from_this_thread is portable");
  claim(maps(c, static_cast<int>(CommonErrors::unable_to_handle_request), errc::not_supported),
        "unable_to_handle_request is portable");
  claim(maps(c, static_cast<int>(CommonErrors::filesystem_io_error), errc::io_error), "filesystem_io_error is portable");
  claim(maps(c, static_cast<int>(CommonErrors::not_a_directory), errc::not_a_directory), "not_a_directory is portable");
  AsymmCategory a;
  for (auto e : {AsymmErrors::data_empty, AsymmErrors::invalid_file, AsymmErrors::invalid_signature,
                 AsymmErrors::signature_empty, AsymmErrors::signing_error})
    claim(maps(a, static_cast<int>(e), errc::invalid_argument), "argument errors are std::errc::invalid_argument");
  claim(maps(RoutingCategory(), static_cast<int>(RoutingErrors::timed_out), errc::timed_out), "timed_out is portable");
  claim(maps(NfsCategory(), static_cast<int>(NfsErrors::timed_out), errc::timed_out), "timed_out is portable");
  claim(maps(VaultManagerCategory(), static_cast<int>(VaultManagerErrors::timed_out), errc::timed_out),
        "timed_out is portable");
  claim(maps(DriveCategory(), static_cast<int>(DriveErrors::permission_denied), errc::permission_denied),
        "permission_denied is portable");
  claim(maps(DriveCategory(), static_cast<int>(DriveErrors::file_exists), errc::file_exists), "file_exists is portable");
  claim(maps(VaultCategory(), static_cast<int>(VaultErrors::operation_not_supported), errc::operation_not_supported),
        "operation_not_supported is portable");
  claim(maps(VaultCategory(), static_cast<int>(VaultErrors::permission_denied), errc::permission_denied),
        "permission_denied is portable");
  VaultManagerCategory m;
  claim(maps(m, static_cast<int>(VaultManagerErrors::connection_not_found), errc::not_connected),
        "connection_not_found is portable");
  claim(maps(m, static_cast<int>(VaultManagerErrors::failed_to_connect), errc::connection_refused),
        "failed_to_connect is portable");
  claim(maps(m, static_cast<int>(VaultManagerErrors::connection_aborted), errc::connection_aborted),
        "connection_aborted is portable");
  claim(maps(m, static_cast<int>(VaultManagerErrors::ipc_message_too_large), errc::message_size),
        "ipc_message_too_large is portable");
}

// Pairs of values of one category: n_v and n_w are different errors, or one is no error at all.
template <typename Category>
void message(int v, int w, bool different) {
  Category c;
  claim(!c.message(v).empty(), "every error has a message");
  claim((c.message(v) != c.message(w)) == different, "different errors have different messages");
}
#define MESSAGES(name, Category) \
  void p_message_##name(int n_v, int n_w) { message<detail::Category>(n_v, n_w, n_v != n_w); }
MESSAGES(common, CommonCategory)
MESSAGES(asymm, AsymmCategory)
MESSAGES(passport, PassportCategory)
MESSAGES(encrypt, EncryptCategory)
MESSAGES(routing, RoutingCategory)
MESSAGES(nfs, NfsCategory)
MESSAGES(drive, DriveCategory)
MESSAGES(vault, VaultCategory)
MESSAGES(vault_manager, VaultManagerCategory)
MESSAGES(api, ApiCategory)

}  // namespace probe
